"""C23: storage running out. Every call with each of its requests for storage refused in turn."""
from check import *
from check import Check


class C23(Check):
    def __init__(self, prop, tier, seed):
        CFG['C23'] = dict(kinds='NVC', draws=[])
        super().__init__(prop, tier, seed)

    def batch(self, tag, seed, samples, steps, init, step, flavours):
        if self.stop or time.time() > self.deadline - 150:
            return
        lines, states, traces = quint_run('C23', self.scratch, tag, seed, samples, steps, init=init, step=step)
        path = os.path.join(self.scratch, tag + '.events')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        ok = True
        for fl in flavours:
            bads, n = replay_file(self.drivers[fl](), fl, path, 'NV', self.scratch, mode=['nomem'], timeout=600)
            with self.lock:
                self.replays += n
                if bads:
                    self.found += [(b, path, lines) for b in bads]
                    self.stop = True
                    ok = False
        with self.lock:
            self.states += states
            self.events += len(lines)
            self.traces += traces if ok else 0
            for l in lines:
                k = l.split(' ', 1)[0]
                self.by_op[k] = self.by_op.get(k, 0) + 1
            fingerprint(lines, self.distinct)
            if len(self.samples) < 6:
                self.samples.append(lines[len(lines) // 2][:400])
        if ok:
            os.unlink(path)

    def explore(self):
        self.drivers = {fl: self.build.driver(fl, self.cpool) for fl in ('count', 'asanf')}
        t = []
        for k in range(JOBS):
            t.append(('scan%d' % k, self.seed * 1000 + k, 1, 400000, 'from(%d, %d)' % (k, JOBS), 'scan', ['count', 'asanf']))
        for w in range(10 if self.tier == 'thorough' else 1):
            for k in range(JOBS):
                s = self.seed * 1000003 + w * 1009 + k * 31
                t.append(('draw%d_%d' % (w, k), s + 7, 24, 100, 'init', 'draw', ['count', 'asanf'] if w % 3 == 0 else ['count']))
                t.append(('live%d_%d' % (w, k), s + 8, 40, 150, 'init', 'live', ['count', 'asanf'] if w % 3 == 0 else ['count']))
        futures = [self.pool.submit(self.batch, *x) for x in t]
        for f in futures:
            f.result()
        for d in self.drivers.values():
            d()
        self.notes = {'calls_with_a_refused_request': self.replays}

    def confirm(self):
        out = []
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for b, path, lines in self.found[:8]:
            if len(out) >= 3:
                break
            ev = lines[b.line - 1] if 0 < b.line <= len(lines) else ''
            # a call of a history needs the state before it only: the event that set or reached it
            part = [ev] if ev and not ev.startswith('h ') else lines[history_start(lines, b.line) - 1:b.line] if ev else lines
            name = os.path.join(rdir, '%s-%d-%d.events' % (self.prop, self.seed, len(out)))
            for ls in (part, lines):
                with open(name, 'w') as f:
                    f.write('# property %s, %s build. Replay: python3 %s/tools/replay.py %s\n# %s\n# kinds=NV env=\n' % (
                        self.prop, b.flavour, VERIF, name, b.text.replace('\n', ' ')))
                    f.write('\n'.join(ls) + '\n')
                bs, _ = replay_file(self.drivers[b.flavour](), b.flavour, name, 'NV', self.scratch, mode=['nomem'], timeout=300)
                if bs:
                    out.append((b, name, ev))
                    break
            else:
                log('note: not repeated: %s' % b.text)
        return out
