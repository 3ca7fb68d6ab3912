"""debug driver: python3-vt -m cv.run module [name]"""
import sys, importlib, time
from . import cast
from .terms import *


import os
W = int(os.environ.get('W', 300))


def main():
    m = importlib.import_module('cv.specs.' + sys.argv[1])
    t = time.time()
    funcs, structs, globs = cast.load_all()
    print('load %.1f' % (time.time() - t))
    for s in m.SPECS:
        if len(sys.argv) > 2 and s.name not in sys.argv[2:]:
            continue
        r = s.run(funcs, structs, globs)
        bad = [o for o in r.obls if not o[3]]
        print('%-40s %5.1fs obl %d failed %d %s' % (s.name, r.time, len(r.obls), len(bad), r.error or ''))
        if r.error and hasattr(r, 'tb'):
            print(r.tb[-1500:])
        for o in bad:
            print('   FAIL', o[0], o[1], 'line', o[2], '%.1fs' % o[4])
            print('      goal:', str(o[5].goal)[:W])
            print('      asm:', str(o[5].asm)[:W])


main()
