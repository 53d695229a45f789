"""C22: storage. The same behaviours again and again in one process; what stays behind must stop growing."""
from check import *
from check import Check
from cpy import PyBuild


class C22(Check):
    def __init__(self, prop, tier, seed):
        CFG['C22'] = dict(kinds='M', draws=[])
        super().__init__(prop, tier, seed)

    def batch(self, fl, module, tag, seed, samples, steps, init, step):
        if self.stop or time.time() > self.deadline - 120:
            return
        lines, states, traces = quint_run(module, self.scratch, tag, seed, samples, steps, init=init, step=step)
        path = os.path.join(self.scratch, tag + '.events')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        bads, n = replay_file(self.drivers[fl](), fl, path, 'M', self.scratch, mode=['leak'], timeout=600, extra=self.env(fl))
        with self.lock:
            self.states += states
            self.events += len(lines)
            self.replays += n
            self.rounds += 0 if fl == 'pycount' else 8
            for l in lines:
                k = ('python ' if fl.startswith('py') else '') + l.split(' ', 1)[0]
                self.by_op[k] = self.by_op.get(k, 0) + 1
            fingerprint(lines, self.distinct)
            if len(self.samples) < 6:
                self.samples.append(lines[len(lines) // 2][:400])
            if bads:
                self.found += [(b, path, lines) for b in bads]
                self.stop = True
            else:
                self.traces += traces
        if not bads:
            os.unlink(path)

    def env(self, fl):
        return dict(PYTHONMALLOC='malloc', LD_PRELOAD=self.preload) if fl == 'pycount' else None

    def explore(self):
        self.rounds = 0
        self.drivers = {'count': self.build.driver('count', self.cpool), 'pycount': PyBuild(self.build, 'count', self.cpool).get}
        self.preload = os.path.join(self.scratch, 'count.so')
        run(['g++', '-O2', '-shared', '-fPIC', os.path.join(VERIF, 'harness/count.cpp'), '-o', self.preload], 120, check=True)
        t = []
        for k in range(JOBS):
            t.append(('count', 'C22', 'scan%d' % k, self.seed * 1000 + k, 1, 400000, 'from(%d, %d)' % (k, JOBS), 'scan'))
        for w in range(6 if self.tier == 'thorough' else 1):
            for k in range(JOBS):
                s = self.seed * 1000003 + w * 1009 + k * 31
                t.append(('count', 'C22', 'draw%d_%d' % (w, k), s + 7, 40, 100, 'init', 'draw'))
                t.append(('count', 'C22', 'live%d_%d' % (w, k), s + 8, 25, 150, 'fresh', 'live'))
            for k in range(JOBS // 2):
                s = self.seed * 1000003 + w * 1009 + k * 31
                t.append(('pycount', 'C20', 'pyops%d_%d' % (w, k), s + 9, 20, 100, 'init', 'draw'))
                t.append(('pycount', 'C21', 'pyobj%d_%d' % (w, k), s + 10, 20, 100, 'init', 'draw'))
        futures = [self.pool.submit(self.batch, *x) for x in t]
        for f in futures:
            f.result()
        for d in self.drivers.values():
            d()
        self.notes = {'rounds_in_one_process': self.rounds}

    def confirm(self):
        out = []
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for b, path, lines in self.found[:6]:
            if len(out) >= 3:
                break
            ev = lines[b.line - 1] if 0 < b.line <= len(lines) else ''
            name = os.path.join(rdir, '%s-%d-%d.events' % (self.prop, self.seed, len(out)))
            for ls in ([ev] if ev else [], lines):
                if not ls:
                    continue
                with open(name, 'w') as f:
                    f.write('# property %s, %s build. Replay: python3 %s/tools/replay.py %s\n# %s\n# kinds=M env=\n' % (
                        self.prop, b.flavour, VERIF, name, b.text.replace('\n', ' ')))
                    f.write('\n'.join(ls) + '\n')
                bs, _ = replay_file(self.drivers[b.flavour](), b.flavour, name, 'M', self.scratch, mode=['leak'], timeout=300, extra=self.env(b.flavour))
                if bs:
                    out.append((b, name, ev))
                    break
            else:
                log('note: not repeated: %s' % b.text)
        return out
