import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
S="src/synthpix/"
p("C01","Second image shows the first displaced by the returned flow",
 "In every synthetic image pair, each particle visible in both images appears in the second image displaced from its place in the first by the flow returned with the pair at that place (in pixels, after undoing the configured output units and the time step). This holds for every flow of a batch, every accepted geometry (non-square, anisotropic resolutions, offsets, extra margins) and every noise-free rendering parameter.",
 ["inputs","configurations"],"all flow fields (uniform, affine), image shapes, resolutions, velocity ranges, time steps, output units and seeds accepted by the synthetic sampler",
 "Tests check shapes and a handful of hand-made flows at one geometry; a swapped axis, a wrong resolution or a wrong unit shows only for non-square, anisotropic or time-step values they do not sample.",
 [S+"sampler/synthetic.py",S+"generate.py",S+"apply.py",S+"data_generate.py"],
 [("position window and margins",S+"sampler/synthetic.py SyntheticImageSampler.__init__"),("advection of particles",S+"apply.py apply_flow_to_particles"),("rendering of both frames",S+"data_generate.py generate_images_from_flow"),("conversion of the flow",S+"utils.py flow_field_adapter")],
 ["images1, images2, flow_fields of the batch"])
p("C02","Returned flow is the configured region of the source flow, in its units",
 "The flow returned with a batch is the source flow sampled on the requested grid over the configured image region, at the configured offset, converted to the configured output units with the resolution and time step (x scaled by x resolution, y by y resolution). Flow k of the scheduler batch is returned for exactly the images generated from flow k.",
 ["inputs","configurations"],"all source flows, source resolutions, image regions, offsets, output shapes and units, batch sizes and numbers of source flows",
 "The tests compare a few constant or square cases, where axes and resolutions cannot be confused.",
 [S+"utils.py",S+"sampler/synthetic.py"],
 [("resampling and unit conversion",S+"utils.py flow_field_adapter"),("region and offsets",S+"sampler/synthetic.py SyntheticImageSampler.__init__")],
 ["flow_fields of the batch","flow_field_adapter result"])
p("C03","A rendered image is the sum of its particles' Gaussian spots",
 "An image is the sum over particles of a correlated Gaussian spot of the particle's diameters, intensity and correlation centred on the particle's position and limited to the particle's patch, for particles anywhere inside the image; hidden particles (zero intensity) add nothing, and particles outside never make the image non-finite. Rendering is therefore additive over particle sets and independent of their order.",
 ["inputs"],"all particle positions, diameters, intensities, correlations, image shapes and patch sizes",
 "The tests compare a few spots with loose tolerances; sub-pixel positions, correlations and overlapping spots are not enumerated.",
 [S+"data_generate.py",S+"generate.py"],
 [("scatter of patches",S+"generate.py img_gen_from_data"),("spot formula",S+"generate.py gaussian_2d_correlated")],
 ["rendered image"])
p("C04","Particles advance by interpolated flow times the time step",
 "Advancing particles adds to each position the flow at that position times the time step, where the flow is the bilinear (2D) or trilinear (3D) interpolation of the grid values, x component along columns and y along rows, honouring the stated grid resolutions. At grid nodes the interpolation returns the grid value; outside the field it uses the nearest border value.",
 ["inputs"],"all grids, particle positions (inside, on the border and outside), time steps and grid resolutions in 2D and 3D",
 "Interpolation is checked at a few points only; errors at borders, on non-square grids or with a non-unit grid spacing are not sampled.",
 [S+"apply.py",S+"utils.py"],
 [("advection",S+"apply.py apply_flow_to_particles"),("interpolation",S+"utils.py bilinear_interpolate, trilinear_interpolate")],
 ["new particle positions"])
p("C05","Image warping puts every pixel where the flow says",
 "Backward warping returns at every pixel the bilinear interpolation of the image at that pixel minus the flow times the time step (nearest border value outside); forward warping deposits every pixel's value, split bilinearly, at that pixel plus the flow times the time step, losing only what leaves the image. A flow given as a function of time and position gives the same image as its samples on the pixel grid, and a zero flow returns the image itself.",
 ["inputs"],"all images, flows (arrays and functions), time steps and directions",
 "The tests use a few smooth flows; axes and signs cannot be confused on symmetric inputs.",
 [S+"apply.py",S+"utils.py"],
 [("array and callable warping",S+"apply.py apply_flow_to_image_forward, apply_flow_to_image_backward, apply_flow_to_image_callable")],
 ["warped image"])
p("C06","Particle parameters follow the configured ranges and are reported",
 "Every image is made from as many particles as its seeding density asks for on its seeded area, and each particle's diameter, intensity and correlation lies in the configured range; the per-image values reported with the batch are the ones the image was made with and lie in the configured ranges. Parameters with zero variation are identical in both frames, with variation they change between frames with the configured spread, and each frame hides a particle with the configured probability independently.",
 ["inputs","configurations"],"all ranges of diameters, intensities, correlations, densities, variations and hiding probabilities, all seeds",
 "A sampled seed and a default configuration cannot show that every range is used for its own parameter and reported for its own image.",
 [S+"data_generate.py",S+"types.py"],
 [("draw of particle parameters",S+"data_generate.py generate_images_from_flow"),("domain of the parameters",S+"types.py ImageGenerationSpecification")],
 ["images","params returned with the batch"])
p("C07","Images keep to the 8-bit range and carry the configured noise",
 "Every image value is finite and between 0 and 255; without noise an empty place is exactly 0, with noise each frame gets its own additive Gaussian noise of the configured level and standard deviation, independent between pixels, frames and images.",
 ["inputs","configurations"],"all densities, intensities and noise levels including saturating ones, all seeds",
 "Tests check bounds for a default configuration and never the statistics of the noise or its independence between frames.",
 [S+"data_generate.py",S+"utils.py"],
 [("noise and clipping",S+"data_generate.py"),("Gaussian noise",S+"utils.py")],["images1, images2"])
p("C08","Masks blank exactly the marked pixels; histograms are matched",
 "With a mask, exactly the pixels it marks as excluded are blanked in both images of every pair and all others are unaffected. With a histogram, every image is replaced by its monotone remapping to that grey-level distribution: darker pixels never become brighter than brighter ones and equal levels stay equal.",
 ["inputs","configurations"],"all masks, histograms and images",
 "The tests use one mask and one histogram and look only at shapes or corner values.",
 [S+"utils.py",S+"sampler/synthetic.py",S+"data_generate.py"],
 [("histogram matching",S+"utils.py match_histogram"),("mask",S+"data_generate.py / sampler/synthetic.py")],["images1, images2"])
p("C09","The seed determines every batch",
 "Two pipelines built with the same configuration, files and seed produce the same sequence of batches, in one process or another, whatever other random generators did in between, and whether or not schedulers are prefetched. Resetting the random state with the sampler replays the sequence from the start.",
 ["inputs","histories","configurations"],"all configurations and seeds; histories of batches, resets and other uses of global random state",
 "Reproducibility is a relation between runs, processes and histories; tests compare at most one call with itself.",
 [S+"make.py",S+"sampler/base.py",S+"sampler/synthetic.py",S+"scheduler/base.py",S+"scheduler/episodic.py"],
 [("splitting of the seed",S+"make.py make"),("random state of the sampler",S+"sampler/synthetic.py reset, _get_next"),("shuffling",S+"scheduler/base.py reset")],["sequence of batches"])
p("C10","Images, batches and seeds get different randomness",
 "Within a batch no two image pairs share their particles, successive batches (also from the same flow) differ, and different seeds give different image sequences; each image of the same flow is an independent sample.",
 ["inputs","histories","configurations"],"all batch sizes, batches per flow, numbers of flows and seeds",
 "A reused random key gives images that pass every shape and range test.",
 [S+"sampler/synthetic.py",S+"data_generate.py"],
 [("key splitting per batch and image",S+"sampler/synthetic.py _get_next; data_generate.py")],["images1, images2, params"])
p("C11","One epoch serves every flow exactly once, with its own data",
 "Reading a non-looping, non-shuffled dataset in batches of any size delivers every flow of every listed file exactly once, in order, each with its own images and file name; the last batch is padded with zeros that the mask marks as invalid, then iteration ends and stays ended until a reset, which starts the same epoch again.",
 ["inputs","histories","configurations"],"all file kinds, file lists (with repeats), numbers of slices, batch sizes, interruptions and resets",
 "Tests read one or two files with one batch size; losses at file or batch boundaries depend on how sizes divide.",
 [S+"scheduler/base.py",S+"scheduler/hdf5.py",S+"scheduler/mat.py",S+"scheduler/numpy.py"],
 [("file and slice iteration",S+"scheduler/base.py BaseFlowFieldScheduler.__next__"),("batches and padding",S+"scheduler/base.py get_batch")],["SchedulerData of get_batch"])
p("C12","Shuffling permutes each epoch; looping never ends or skips",
 "With shuffling, every epoch is a permutation of the files, chosen by the key, still exactly once each; without it the listed order is kept. With looping, batches are always full, every valid file is served once per pass for ever, and passes follow each other without loss or repetition.",
 ["inputs","histories","configurations"],"all file lists, keys, batch sizes, numbers of passes and resets",
 "One seed and one epoch cannot distinguish a permutation from a resampling, nor show a loss where passes meet.",
 [S+"scheduler/base.py"],
 [("shuffle and loop",S+"scheduler/base.py reset, __next__")],["files and flows of get_batch"])
p("C13","Unreadable files are skipped, never mixed in, never hang",
 "Files that cannot be read (missing data, truncated, not of the format) are skipped and every readable file is still served exactly once with its own data; when no file is readable, reading ends with StopIteration instead of looping for ever, also when looping is on.",
 ["fault_sequences","inputs","histories"],"all placements and kinds of unreadable files, batch sizes, looping or not, files that break during the run",
 "The tests place one broken file; runs of them, at the ends and with looping are not enumerated.",
 [S+"scheduler/base.py",S+"scheduler/mat.py",S+"scheduler/hdf5.py",S+"scheduler/numpy.py"],
 [("error handling of file loading",S+"scheduler/base.py __next__, _load_file")],["SchedulerData of get_batch","termination"])
p("C14","A directory stands for exactly its files of the format",
 "Given a directory, a scheduler reads exactly the files of its own format in it (.mat and .h5 files also of its subdirectories), in sorted order, whatever the names of the directory and the other files. A list is read as given, and a missing file, a file of another format or a list without any file is refused when the scheduler is built.",
 ["inputs","configurations"],"all directory trees, file names and lists",
 "Tests use plain names in one directory.",
 [S+"scheduler/base.py",S+"scheduler/episodic.py"],
 [("directory search",S+"scheduler/base.py __init__, file_list")],["file_list","files served"])
p("C15","MAT files of every version load the stored flow and images",
 "A .mat file of any version that can hold it (5 to 7.3, written by MATLAB or by Python) yields its stored flow and images, with (2,H,W) layouts transposed to (H,W,2) and grey or colour images in (H,W[,3]). Data of another size than the output shape is resampled to it, images by interpolation and the flow with each component scaled by its own axis factor.",
 ["inputs","configurations"],"all versions, layouts, field shapes, output shapes and image types",
 "Tests use square fields and one version per test, where transposed axes and swapped scale factors agree.",
 [S+"scheduler/mat.py"],
 [("loading and layout",S+"scheduler/mat.py load_file"),("resizing",S+"scheduler/mat.py")],["flow, images of the batch"])
p("C16","HDF5 and numpy files load the stored flow unchanged",
 "Each slice read from an HDF5 file is the stored plane of that index in row-column-component layout, and each numpy file yields the stored array with the two images its frame number refers to; missing images and wrong file names are refused when the scheduler is built, and malformed datasets are never served as data.",
 ["inputs"],"all dataset shapes, dtypes, chunkings and frame numbers",
 "Tests use one array shape, and frame numbers with one digit.",
 [S+"scheduler/hdf5.py",S+"scheduler/numpy.py"],
 [("slice selection",S+"scheduler/hdf5.py get_next_slice"),("image pairing",S+"scheduler/numpy.py")],["flow, images of the batch"])
p("C17","An episode is a run of consecutive frames of one sequence",
 "Each lane of an episodic batch walks, step by step, through consecutive frames of a single leaf directory in the order of their names for exactly the episode length, then a new episode starts at a fresh position; runs never cross directories, never exceed their sequence, and the seed decides which runs are chosen.",
 ["inputs","histories","configurations"],"all directory trees, sequence lengths, episode lengths, batch sizes, seeds and numbers of episodes",
 "Tests build one small tree with equally long sequences.",
 [S+"scheduler/episodic.py"],
 [("choice of starts and interleaving",S+"scheduler/episodic.py")],["files of each batch"])
p("C18","The episode protocol holds after any sequence of calls",
 "Within an episode exactly the episode length of batches is delivered, the last one is marked done for all lanes and no other, and asking for more ends the episode with an error until the next episode is requested; steps remaining counts down accordingly, and after next_episode or reset a batch is the first step of an episode. This holds through the prefetcher and the samplers too.",
 ["histories","configurations"],"all interleavings of get_batch, next_episode, reset and steps_remaining, all episode lengths, with and without prefetching",
 "Tests run straight-line episodes; the protocol must hold for all call histories.",
 [S+"scheduler/episodic.py",S+"scheduler/prefetch.py",S+"sampler/base.py",S+"sampler/real.py",S+"sampler/synthetic.py"],
 [("episode counter",S+"scheduler/episodic.py get_batch, next_episode, steps_remaining"),("discarding",S+"scheduler/prefetch.py next_episode"),("done flag",S+"sampler/base.py")],["done, EpisodeEndError, steps_remaining, files"])
p("C19","Prefetching delivers the same batches in the same order",
 "A prefetched scheduler delivers exactly the batches the wrapped scheduler would, in the same order, none lost or repeated, whatever the relative speed of producer and consumer and the buffer size, then ends where the wrapped scheduler ends; after a reset or next_episode only batches of the new epoch or episode are delivered.",
 ["schedules","histories","configurations"],"all interleavings of producer and consumer, buffer sizes, batch counts, reset and next_episode points",
 "Tests run at one natural speed; losses occur only in particular interleavings.",
 [S+"scheduler/prefetch.py"],
 [("queue and worker",S+"scheduler/prefetch.py _worker, get_batch, reset, next_episode")],["batches returned by get_batch"])
p("C20","Prefetching starts, stops and restarts without deadlock or leak",
 "Whatever the order of get_batch, reset, next_episode and shutdown, every call returns, after shutdown no worker thread is left, shutdown may be repeated, and a consumer is never left waiting for a batch that cannot come.",
 ["schedules","histories"],"all call sequences and states of the buffer (empty, full, ended), at any speed of the wrapped scheduler",
 "Tests shut down from one or two states.",
 [S+"scheduler/prefetch.py"],
 [("stop event, sentinel and join",S+"scheduler/prefetch.py shutdown, reset, _worker")],["live threads","return of every call"])
p("C21","make() builds the pipeline the configuration describes",
 "make builds the sampler the configuration names: the scheduler for the file format reading the given files, wrapped for episodes and prefetching as asked with the right number of flows per batch, real or synthetic images, and every sampler option taken from the configuration; its batches are those of the same pipeline assembled by hand. Options documented as optional take their documented default when left out. Configurations that are contradictory or of the wrong type are refused.",
 ["configurations","inputs"],"all combinations of formats, wrappers, image sources, batch sizes, option values and file list forms",
 "Tests mostly check the types of the objects built for a few combinations.",
 [S+"make.py"],
 [("assembly",S+"make.py make")],["batches of the sampler built","errors raised"])
p("C22","Invalid configurations are refused, valid ones accepted",
 "An image specification is accepted exactly when its ranges are ordered, positive where needed and within their domains, and its lists are not empty; a sampler refuses a geometry whose image region and margins do not fit in the source flow, and accepts those that fit and then produces finite images of the requested shape.",
 ["configurations","inputs"],"all values of each option around the limits of its domain, alone and in combination",
 "Tests try single bad values of single options.",
 [S+"types.py",S+"sampler/synthetic.py",S+"sampler/base.py"],
 [("validation",S+"types.py ImageGenerationSpecification; sampler/synthetic.py __init__")],["acceptance or ValueError"])
p("C23","Each scheduler batch is used for the configured number of batches",
 "A synthetic sampler asks its scheduler for a new set of flows exactly once per configured number of batches, delivers all of them, and ends exactly when the flows end; masks and file names delivered belong to the flows used, all batches have the configured size, and a reset starts again.",
 ["histories","configurations","inputs"],"all numbers of batches per flow batch, flows per batch, dataset sizes, and resets at any point",
 "Tests use counts that divide evenly and never stop in the middle.",
 [S+"sampler/synthetic.py",S+"sampler/base.py"],
 [("reuse counter",S+"sampler/synthetic.py _get_next"),("iteration",S+"sampler/base.py __next__")],["calls to the scheduler","batches delivered"])
p("C24","The sanity tool records true flow extremes and keeps the rest",
 "The configuration updated by the sanity tool records bounds on the largest velocities found over every flow of every readable file, so that particle advection stays inside the margins, and every other setting of the configuration keeps its value; missing or invalid entries are reported rather than overwritten silently.",
 ["inputs","configurations"],"all datasets, configuration contents and answers",
 "Tests use one file with one flow and a minimal configuration.",
 [S+"sanity.py"],
 [("extremes and update",S+"sanity.py")],["updated YAML file"])
p("C25","Batches and specifications keep their fields through every conversion",
 "Batches, parameters and specifications can be flattened and rebuilt, mapped, updated and passed through JAX transformations without losing, swapping or changing any field. Updating returns a new object in which exactly the named fields have the new values, leaves the original as it was, and checks a specification's new values as its construction does.",
 ["inputs"],"all field values including absent optional fields, all subsets of fields updated",
 "Tests check one instance with most fields filled.",
 [S+"types.py"],
 [("pytree registration and update",S+"types.py")],
 ["fields of the objects"])
p("C26","Dataset preparation preserves flows, images and splits",
 "The dataset scripts read Middlebury flow files as written, pack each image pair and its flow into a MAT file with the images as they are and the flow at the target size with its vectors scaled accordingly, draw disjoint train, validation and tuning lists that together are the official list, and copy each packed sample to exactly the splits that list it; a truncated or foreign flow file is refused.",
 ["inputs","fault_sequences","configurations"],"all flow sizes and values, image sizes, split files and dataset layouts",
 "The scripts have no tests of their content.",
 ["scripts/download_piv_1.py","scripts/download_piv_2.py","scripts/utils.py"],
 [("flow reader and conversion","scripts/download_piv_1.py"),("splits","scripts/download_piv_1.py fetch_splits, load_split_file, perform_split"),("records","scripts/download_piv_2.py process_tfrecord"),("lists","scripts/utils.py")],["files written"])
p("C27","Several devices compute the pairs and flows one device computes",
 "On several devices the sampler delivers batches of the configured size in which every image pair moves by the flow, and has the parameters, returned at its index, every flow of the scheduler batch being used as on one device, with its mask and file names, and no two images alike; the same seed reproduces them.",
 ["configurations","inputs"],"all divisors of the batch into devices, flow counts and seeds",
 "The tests run on one device.",
 [S+"sampler/synthetic.py",S+"utils.py",S+"data_generate.py"],
 [("device mesh and sharding",S+"sampler/synthetic.py __init__")],["batch of the sampler"])
p("C28","Both images are seeded evenly: the flow leaves no empty band",
 "As long as the flow stays within the configured velocity bounds, the mean particle density is uniform over both images: particles entering through any border replace those leaving, so no border of either image is depleted.",
 ["inputs","configurations"],"all uniform flows within the configured bounds in any direction, geometries and time steps",
 "A missing margin on one side shows as a dark band only for flows in one direction; no test looks at where particles are.",
 [S+"sampler/synthetic.py"],
 [("margins from velocity bounds",S+"sampler/synthetic.py __init__")],["images1, images2"])
p("C29","Real samplers deliver the stored image pair with its own flow",
 "A real-image sampler delivers, for every valid index, the two stored images at their stored grey levels together with the stored flow and name of the same record, in scheduler order, padded entries being zero and marked invalid; a scheduler that serves no images is refused, however it is wrapped.",
 ["inputs","histories","configurations"],"all datasets with images, batch sizes and numbers of batches",
 "Tests use constant images, which cannot show a swapped or shifted pairing.",
 [S+"sampler/real.py",S+"scheduler/mat.py",S+"scheduler/numpy.py"],
 [("batch assembly",S+"sampler/real.py _get_next")],["batch of the sampler"])
p("C30","Delivered batches stay as they were; reading alters no input",
 "A batch once delivered keeps its values whatever is called afterwards (more batches, resets, shutdown), and what its owner does to its arrays changes no later batch; reading alters neither the dataset's files nor the list, configuration, flows, mask or histogram that was handed in.",
 ["inputs","histories","configurations"],"all formats, wrappers, batch sizes and sequences of get_batch, next_episode and reset",
 "Sharing of buffers shows only when an earlier batch is looked at again after later calls; tests look at each batch once.",
 [S+"scheduler/base.py",S+"scheduler/hdf5.py",S+"scheduler/mat.py",S+"scheduler/numpy.py",S+"scheduler/prefetch.py",S+"sampler/synthetic.py",S+"sampler/real.py",S+"make.py"],
 [("assembly of batches",S+"scheduler/base.py get_batch"),("flows kept by the sampler",S+"sampler/synthetic.py _get_next"),("configuration",S+"make.py make")],["delivered batches, files on disk, arguments"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
