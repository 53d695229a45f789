#!/usr/bin/env python3
"""replay.py FILE  - replays a file of events a check wrote (out/replay/*.events) on the current tree. Exit 1 if it is still rejected."""
import concurrent.futures as cf, os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *


def main():
    path = os.path.abspath(sys.argv[1])
    text = open(path).read()
    m = re.search(r'^# property (\S+), (\S+) build', text, re.M)
    prop, flavour = (m.group(1), m.group(2)) if m else ('?', 'plain')
    k = re.search(r'^# kinds=(\S+) env=(\S*)', text, re.M)
    kinds = k.group(1) if k else 'VKREOA'
    extra = dict(x.split('=', 1) for x in (k.group(2).split(',') if k and k.group(2) else []))
    d = fresh_scratch('replay')
    pool = cf.ThreadPoolExecutor(JOBS)
    try:
        b = Build(d)
        if prop == 'C22':
            from cpy import PyBuild
            so = os.path.join(d, 'count.so')
            run(['g++', '-O2', '-shared', '-fPIC', os.path.join(VERIF, 'harness/count.cpp'), '-o', so], 120, check=True)
            get = PyBuild(b, 'count', pool).get if flavour == 'pycount' else b.driver('count', pool)
            bads, n = replay_file(get(), flavour, path, 'M', d, mode=['leak'], extra=dict(PYTHONMALLOC='malloc', LD_PRELOAD=so) if flavour == 'pycount' else None)
        elif prop == 'C23':
            bads, n = replay_file(b.driver(flavour, pool)(), flavour, path, 'NV', d, mode=['nomem'])
        elif flavour.startswith('py'):
            from cpy import replay_python
            bads, n = replay_python(b, flavour, path, kinds, d)
        elif flavour == 'threads':
            bads, n = replay_file(b.driver('plain', pool)(), 'plain', path, kinds, d, mode=['threads', '8', '40', '1'])
        elif flavour == 'tsan':
            bads, n = replay_file(b.driver('tsan', pool)(), 'tsan', path, kinds, d, mode=['threads', '4', '4', '1'])
        else:
            bads, n = replay_file(b.driver(flavour if flavour in FLAVOURS else 'plain', pool)(), flavour, path, kinds, d, extra=extra)
        for x in bads:
            log('line %d: %s %s' % (x.line, x.kind, x.text))
        log('%d calls replayed, %d rejected' % (n, len(bads)))
        return 1 if bads else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
