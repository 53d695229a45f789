"""C18: the same calls in other orders, repeated, from several threads at once, and before main()."""
import random
from check import *
from check import Check


class C18(Check):
    def __init__(self, prop, tier, seed):
        CFG['C18'] = dict(kinds='VKERO', draws=[])
        super().__init__(prop, tier, seed)
        self.checked_alone = 0

    def orders(self, lines, seed):
        r = random.Random(seed)
        k = list(range(len(lines)))
        yield 'in order', k
        yield 'reversed', k[::-1]
        p = k[:]
        r.shuffle(p)
        yield 'shuffled', p
        # the same kind of call, one after the other: what a call keeps meets the next call of its kind
        g = sorted(k, key=lambda i: (lines[i].split(' ', 1)[0], r.random()))
        yield 'grouped by operation', g
        # by total length of operands, so that equal sizes follow each other
        g = sorted(k, key=lambda i: (lines[i].split(' ', 1)[0], [len(x) for x in lines[i].split(' | ')[0].split()[3:]], r.random()))
        yield 'grouped by operand lengths', g
        # every call twice in a row, then everything again
        yield 'repeated', [i for i in p for _ in (0, 1)]

    def add(self, bads, how, fl, lines, index=None, path=None):
        with self.lock:
            for b in bads:
                ev = lines[b.line - 1] if 0 < b.line <= len(lines) else ''
                self.found.append((b, ev, how, path, list(lines)))
            if len(self.found) > 60:
                self.stop = True

    def batch(self, tag, seed, events, init, step, heavy):
        if self.stop or time.time() > self.deadline - 150:
            return
        lines, states, traces = quint_run('C18', self.scratch, tag, seed, max(1, events // 100), 100, init=init, step=step) if step == 'draw' else \
            quint_run('C18', self.scratch, tag, seed, 1, 100000, init=init, step=step)
        with self.lock:
            self.states += states
            self.events += len(lines)
            fingerprint(lines, self.distinct)
            for l in lines:
                k = l.split(' ', 1)[0]
                self.by_op[k] = self.by_op.get(k, 0) + 1
            self.samples += [l[:300] for l in lines[:1]]
        clean = True
        for how, order in self.orders(lines, seed):
            ls = [lines[i] for i in order]
            path = os.path.join(self.scratch, '%s-%s.events' % (tag, how.replace(' ', '_')))
            with open(path, 'w') as f:
                f.write('\n'.join(ls) + '\n')
            bads, n = replay_file(self.drivers['plain'](), 'plain', path, 'VKERO', self.scratch)
            self.add(bads, how, 'plain', ls, path=path)
            clean &= not bads
            with self.lock:
                self.replays += n
        path = os.path.join(self.scratch, tag + '.events')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        bads, n = replay_file(self.drivers['plain'](), 'plain', path, 'VKERO', self.scratch, mode=['threads', '8', '6' if heavy else '3', str(seed)])
        self.add(bads, 'eight threads', 'plain', lines, path=path)
        clean &= not bads
        with self.lock:
            self.replays += n
            self.modes['eight threads'] = self.modes.get('eight threads', 0) + n
            if clean:
                self.traces += traces
        if tag in ('draw0_0', 'draw0_1'):
            # a few calls of each kind, tens of thousands of times each
            few, seen = [], {}
            for l in sorted(lines, key=len):
                k = l.split(' ', 1)[0]
                seen[k] = seen.get(k, 0) + 1
                if 20 < len(l) < 900 and seen[k] % 9 == 0 and seen[k] < 100:
                    few.append(l)
            p4 = os.path.join(self.scratch, tag + '.many.events')
            with open(p4, 'w') as f:
                f.write('\n'.join(few) + '\n')
            rounds = 2500 if heavy else 700
            bads, n = replay_file(self.drivers['plain'](), 'plain', p4, 'VKERO', self.scratch, mode=['threads', '1', str(rounds), str(seed)])
            self.add(bads, 'repeated many times', 'plain', few, path=p4)
            with self.lock:
                self.replays += n
                self.modes['repeated many times'] = self.modes.get('repeated many times', 0) + n
        if self.tsan_ok:
            small = lines[:: max(1, len(lines) // (2500 if heavy else 900))]
            p2 = os.path.join(self.scratch, tag + '.tsan.events')
            with open(p2, 'w') as f:
                f.write('\n'.join(small) + '\n')
            bads, n = replay_file(self.drivers['tsan'](), 'tsan', p2, 'VKERO', self.scratch, mode=['threads', '4', '2', str(seed)])
            self.add(bads, 'four threads under ThreadSanitizer', 'tsan', small, path=p2)
            with self.lock:
                self.replays += n
                self.modes['ThreadSanitizer'] = self.modes.get('ThreadSanitizer', 0) + n
        # before main(), with the driver's objects initialised before and after the library's
        few = lines[:: max(1, len(lines) // 400)]
        p3 = os.path.join(self.scratch, tag + '.early.events')
        with open(p3, 'w') as f:
            f.write('\n'.join(few) + '\n')
        for order in (0, 1):
            for fl in ('plain', 'asan'):
                bads = self.early(fl, order, p3)
                self.add(bads, 'before main()', fl, few, path=p3)
                with self.lock:
                    self.replays += len(few)
                    self.modes['before main'] = self.modes.get('before main', 0) + len(few)

    def early(self, fl, order, path):
        prog = path + '.%s%d.progress' % (fl, order)
        env = driver_env(fl, 'VKERO', {'BI_EARLY_FILE': path, 'BI_EARLY_PROGRESS': prog})
        rc, o, e = run([self.drivers[fl](order), 'early'], 200, env=env)
        bads = [Bad(int(m.group(1)), m.group(2), m.group(3), fl) for m in re.finditer(r'^BAD (\d+) (\w) (.*)$', o, re.M)]
        if 'EARLY-DONE' not in o:
            at = int.from_bytes(open(prog, 'rb').read(8), 'little') if os.path.exists(prog) else 0
            bads.append(Bad(at, 'C', crash_text(rc, e), fl))
        elif rc != 0 and not bads:
            bads.append(Bad(0, 'C', crash_text(rc, e) + ' at exit', fl))
        return bads

    def explore(self):
        self.modes = {}
        self.drivers = {fl: self.build.driver(fl, self.cpool) for fl in ('plain', 'asan', 'tsan')}
        t = os.path.join(self.scratch, 'tsan.events')
        with open(t, 'w') as f:
            f.write('mul 0 - 3 4 | c\n')
        # ThreadSanitizer does not start on every kernel; without it the plain threads remain
        rc, o, e = run([self.drivers['tsan'](), 'run', t, t + '.p'], 60, env=driver_env('tsan', 'V'))
        self.tsan_ok = 'FATAL: ThreadSanitizer' not in e and 'unexpected memory mapping' not in e
        deep = self.tier == 'thorough'
        jobs = []
        for w in range(8 if deep else 1):
            for k in range(JOBS):
                jobs.append(('draw%d_%d' % (w, k), self.seed * 1000003 + w * 1009 + k * 31 + 7, 5000, 'init', 'draw', deep))
        for k in range(4):
            jobs.append(('scan%d' % k, self.seed * 1000 + k, 0, 'from(%d, 4)' % k, 'scan', False))
        for f in [self.pool.submit(self.batch, *j) for j in jobs]:
            f.result()
        self.notes = {'replays_by_mode': self.modes, 'thread_sanitizer': self.tsan_ok}

    def alone(self, ev, fl, env=None):
        """What a call does as the first and only one of a process, three times."""
        p = os.path.join(self.scratch, 'alone.events')
        with open(p, 'w') as f:
            f.write(ev + '\n')
        res = [bool(replay_file(self.drivers['plain'](), 'plain', p, 'VKERO', self.scratch, max_restarts=0)[0]) for _ in range(3)]
        return res

    def confirm(self):
        out, seen = [], set()
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for b, ev, how, path, lines in self.found:
            if len(out) >= 3:
                break
            if b.flavour != 'tsan' and ev:
                k = ev
                if k in seen:
                    continue
                seen.add(k)
                if len(seen) > 25:
                    break
                if all(self.alone(ev, b.flavour)):
                    continue       # wrong in every process: not this property
            name = os.path.join(rdir, 'C18-%d-%d.events' % (self.seed, len(out)))
            # does it happen again?
            again = []
            for _ in range(3):
                if how == 'before main()':
                    again = self.early(b.flavour, 0, path) + self.early(b.flavour, 1, path)
                elif 'many times' in how:
                    again, _n = replay_file(self.drivers['plain'](), 'plain', path, 'VKERO', self.scratch, mode=['threads', '1', '2500', str(self.seed)])
                elif 'threads' in how:
                    again, _n = replay_file(self.drivers[b.flavour](), b.flavour, path, 'VKERO', self.scratch,
                                            mode=['threads', '4' if b.flavour == 'tsan' else '8', '6', str(self.seed)])
                else:
                    again, _n = replay_file(self.drivers['plain'](), 'plain', path, 'VKERO', self.scratch)
                if again:
                    break
            if not again and b.kind == 'C' and b.flavour != 'tsan':
                log('note: not repeated: ' + b.text)
                continue
            with open(name, 'w') as f:
                f.write('# property C18, %s build, %s. %s\n' % (b.flavour, how, b.text.replace('\n', ' ')))
                f.write('# kinds=VKERO mode=%s\n' % how.replace(' ', '_'))
                f.write('\n'.join(lines) + '\n')
            b.text = how + ': ' + b.text
            out.append((b, name, ev))
        return out
