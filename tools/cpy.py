"""C20, C21: the Python surface, replayed on the extension module built from the tree."""
import shlex
from check import *
from check import Check

PYKINDS = 'VTOE'


class PyBuild:
    """The extension module, built once; a script that runs driver.py on it stands for the driver."""

    def __init__(self, build, flavour, pool):
        self.dir = os.path.join(build.dir, 'py-' + flavour)
        os.makedirs(self.dir, exist_ok=True)
        self.flavour = flavour
        rc, o, e = run([PY, '-c', 'import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_path("include"));print(sysconfig.get_config_var("EXT_SUFFIX"))'], 60, check=True)
        inc1, inc2, suffix = o.split()
        self.so = os.path.join(self.dir, 'pybiginteger' + suffix)
        fl = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'] if flavour == 'asan' else ['-O2', '-g1']
        self.flags = ['-std=c++17', '-w', '-fPIC', '-fvisibility=hidden', *fl]
        inc = ['-I' + inc1, '-I' + inc2, '-I' + build.src + '/include', '-I' + build.src + '/include/public', '-DVERSION_INFO="0"']
        self.objs, self.jobs = [], []
        for s in sorted(glob.glob(build.src + '/bindings/python/*.cpp')) + build.lib_sources():
            o = os.path.join(self.dir, os.path.relpath(s, '/').replace('/', '_') + '.o')
            self.objs.append(o)
            self.jobs.append(pool.submit(run, ['g++', *self.flags, *inc, '-c', s, '-o', o], 900, None, None, True))
        self.lock = threading.Lock()
        self.done = False
        self.script = os.path.join(self.dir, 'driver')

    def get(self, order=0):
        with self.lock:
            if not self.done:
                for j in self.jobs:
                    j.result()
                run(['g++', '-shared', *self.flags, *self.objs, '-o', self.so], 600, check=True)
                pre = ''
                if self.flavour == 'asan':
                    libs = [run(['g++', '-print-file-name=' + l], 60, check=True)[1].strip() for l in ('libasan.so', 'libstdc++.so')]
                    pre = 'export LD_PRELOAD=%s PYTHONMALLOC=malloc\n' % shlex.quote(' '.join(libs))
                with open(self.script, 'w') as f:
                    f.write('#!/bin/sh\nexport PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1\n%sexec %s -P %s "$@"\n' % (
                        shlex.quote(self.dir), pre, shlex.quote(PY), shlex.quote(os.path.join(VERIF, 'harness/driver.py'))))
                os.chmod(self.script, 0o755)
                self.done = True
        return self.script


def replay_python(build, flavour, path, kinds, scratch):
    b = PyBuild(build, flavour[2:] or 'plain', cf.ThreadPoolExecutor(JOBS))
    return replay_file(b.get(), flavour[2:] or 'plain', path, kinds, scratch)


class CPy(Check):
    def __init__(self, prop, tier, seed):
        CFG['C20'] = dict(kinds=PYKINDS, draws=[('draw', 100, 9000)])
        CFG['C21'] = dict(kinds=PYKINDS, draws=[('draw', 100, 7000), ('live', 150, 4500)])
        super().__init__(prop, tier, seed)

    def tasks(self):
        t = []
        nj = JOBS
        fl = ['pyplain', 'pyasan'] if self.tier == 'thorough' else ['pyplain']
        for k in range(nj):
            t.append(('scan%d' % k, self.seed * 1000 + k, 1, 400000, 'from(%d, %d)' % (k, nj), 'scan', ['pyplain']))
        for w in range(8 if self.tier == 'thorough' else 1):
            for step, steps, events in self.cfg['draws']:
                for k in range(JOBS):
                    t.append(('%s%d_%d' % (step, w, k), self.seed * 1000003 + w * 1009 + k * 31 + 7, max(1, events // steps), steps,
                              'fresh' if step == 'live' else 'init', step, fl if w % 2 == 0 else ['pyplain']))
        return t

    def explore(self):
        self.drivers = {'pyplain': PyBuild(self.build, 'plain', self.cpool).get}
        if self.tier == 'thorough':
            self.drivers['pyasan'] = PyBuild(self.build, 'asan', self.cpool).get
        futures = [self.pool.submit(self.task, *x) for x in self.tasks()]
        for f in futures:
            f.result()
        for d in self.drivers.values():
            d()
