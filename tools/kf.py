import json,subprocess
F=[("5e22bcf","C11","a file listed twice in a row was served only once"),
("84050ba","C11","the last, partial batch of RGB images raised instead of being padded"),
("750d22f","C14","a directory of .h5 files was refused (only listed files worked)"),
("2d94e94","C14","directories whose names have glob characters ([, ], *, ?) were found empty"),
("3e72b02","C15",".mat images were resized to (width, height) and with nearest neighbours"),
("745cfa4","C12","from_config ignored the key: the seed did not choose the order of the files"),
("390c733","C17","setting up episodes with randomize=True shuffled the frames of an episode"),
("3f543f6","C09","the order of episode directories was that of a set: it changed with PYTHONHASHSEED"),
("31b7343","C23","a sampler whose flows had ended delivered stale batches on the next call"),
("13c66bf","C13","looping over files none of which can be read never ended"),
("e68488d","C21","make() built episodes and prefetching for batch_size flows, the sampler asked for flow_fields_per_batch"),
("3e58a25","C21","make() refused a single path as file_list, which the tutorials use"),
("9c38dfc","C01","particles were displaced with the wrong grid resolution for non-default resolutions"),
("d548aaa","C20","shutdown of the prefetcher left the worker thread running"),
("8ec3a65","C19","a batch was dropped at the end of the data when the consumer was slow"),
("ca2e652","C24","the sanity tool overwrote other values of the configuration"),
("0338f2e","C18","next_episode() of the prefetcher could start in the middle of an episode with a slow loader"),
("d4ed66a","C01","images were one pixel short when position bounds were rounded down (e.g. (63, 39) for (64, 39) at resolution 1.3)"),
("a7d6f57","C28","particles outside the image were drawn piled up on its border pixels"),
("5894dba","C15","v7.3 files written by MATLAB were loaded with their axes reversed"),
("4568ea9","C13","files whose slices or images could not be read raised forever instead of being skipped"),
("073051f","C24","strings such as 1e3 became numbers in the updated configuration (written with another YAML dialect than it is read with)"),
("35bba33","C24","the tool refused a configuration which the user had just completed: it checked the old one"),
("e979b18","C26","convert() found no samples below a directory whose name has glob characters"),
("56594dc","C20","after a shutdown whose join timed out the worker waited for space in the queue for ever"),
("a1d08f6","C13","HDF5 files whose dataset has another rank or one component were served as flows"),
("2ba5d97","C20","after shutdown with a full queue the consumer waited for a batch until its time-out"),
("ab5731d","C21","make() failed without a seed, documented as optional, for synthetic images"),
("e5c06d5","C14","a subdirectory named like a data file (d.h5) made its directory refused"),
("2f13f02","C13",".npy files whose array has another rank or one component were served as flows"),
]
out=[]
for h,p,w in F:
    full=subprocess.check_output(["git","-C","/repo","rev-parse",h],text=True).strip()
    out.append({"property":p,"commit":full,"what":w,"entry":f"fixed: property={p} {h} {w}"})
findings=[{"property":"C09","sub":"readahead","message":"after a reset a prefetched shuffled scheduler goes on with",
 "what":"after reset() of a prefetched scheduler that is shuffled and loops (or serves episodes), the order that follows depends on how far the worker had read ahead (each pass or episode read ahead has used up a random key): PrefetchingFlowFieldScheduler.reset, src/synthpix/scheduler/prefetch.py"}]
json.dump({"findings":findings,"fixed":out},open("/verif/known_findings.json","w"),indent=1)
