REPO_INC = ['.', 'c/librtcm/include', 'c/librtcm/src', 'c/libubx/include', 'c/libixcom/include',
            'c/gnss_converters/include', 'c/gnss_converters/src',
            'c/gnss_converters_extra/include', 'c/gnss_converters_extra/src']
TRUSTED = ['CBMC 6.11 C front end, symbolic execution and bit-blasting; CaDiCaL SAT solver',
           'x86-64 Linux data model (LP64, little endian, IEEE-754 doubles, round to nearest)']
ASSUMPTIONS = []
KNOWN = {}
PROPS = {}

import os, importlib, glob
def U(name, file, entry=None, **k):
    k.update(name=name, file=file, entry=entry or 'h_' + name)
    return k
def P(pid, units, **k):
    k['units'] = units
    PROPS[pid] = k

for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_*.py'))):
    exec(compile(open(f).read(), f, 'exec'), globals())
