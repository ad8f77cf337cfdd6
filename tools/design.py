import sys,os,re; sys.path.insert(0,'/verif')
os.environ.setdefault('GOGGLES_PORT','23990')
import importlib
p='/verif/DESIGN.md'; s=open(p).read()
def counts(i):
    m=importlib.import_module(f'pbt.c{i:02d}')
    subs=m.PROP.subs
    if len(subs)==1: return f'{subs[0].quick} / {subs[0].thorough}'
    return ', '.join(f'{x.name} {x.quick} / {x.thorough}' for x in subs)
for i in range(1,31):
    pat=re.compile(rf'(\*\*C{i:02d} [^*]*\*\*) ?(\([^)]*\))')
    assert pat.search(s),i
    s=pat.sub(lambda m:f'{m.group(1)} ({counts(i)})',s,1)
open(p,'w').write(s)
