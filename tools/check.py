#!/usr/bin/env python3
"""check.py PROPERTY  - decides one property of the library with the specification. VERIF_SEED, VERIF_TIER."""
import concurrent.futures as cf, os, random, re, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
from limbs import limb_models

VALUE = 'VKER'       # value properties: what a call yields, in canonical form, and how it ends
# property: kinds of mismatch it speaks of, draw jobs (step action, steps per behaviour, events per job at quick), watched flavours
CFG = {
    'C01': dict(kinds='KR', draws=[('draw', 120, 9000), ('make', 100, 1500)], env={'BI_CHECK_ROUTES': '1'}),
    'C02': dict(kinds=VALUE, draws=[('draw', 100, 12000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C03': dict(kinds=VALUE, draws=[('draw', 100, 9000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C04': dict(kinds=VALUE, draws=[('draw', 100, 14000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C05': dict(kinds=VALUE, draws=[('draw', 100, 9000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C06': dict(kinds=VALUE, draws=[('draw', 100, 9000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C07': dict(kinds=VALUE, draws=[('draw', 100, 7000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C08': dict(kinds=VALUE, draws=[('draw', 100, 12000)], more=[('huge', 6, ['plain']), ('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C09': dict(kinds=VALUE, draws=[('draw', 100, 5000)], scanjobs=16, more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C10': dict(kinds=VALUE, draws=[('draw', 100, 16000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C11': dict(kinds=VALUE, draws=[('draw', 100, 12000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C12': dict(kinds=VALUE, draws=[('draw', 100, 9000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C13': dict(kinds=VALUE, draws=[('draw', 100, 16000)], more=[('giant', 100, ['plain'])]),
    'C14': dict(kinds=VALUE, draws=[('draw', 100, 16000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C15': dict(kinds=VALUE, draws=[('draw', 100, 4000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C16': dict(kinds=VALUE, draws=[('draw', 100, 12000)], more=[('long', 1000, ['plain', 'asan']), ('giant', 100, ['plain'])]),
    'C17': dict(kinds='OA', draws=[('draw', 150, 12000)]),
    'C19': dict(kinds='E', draws=[('draw', 100, 9000)]),
}
TITLES = {}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = CFG[prop]
        self.t0 = time.time()
        self.deadline = self.t0 + (700 if tier == 'quick' else 850)
        self.scratch = fresh_scratch(prop)
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.cpool = cf.ThreadPoolExecutor(JOBS)
        self.lpool = cf.ThreadPoolExecutor(1)
        self.build = Build(self.scratch)
        self.states = self.traces = self.events = self.replays = 0
        self.by_op = {}
        self.distinct = set()
        self.samples = []
        self.found = []          # (Bad, file of events, its lines)
        self.lock = threading.Lock()
        self.stop = False
        self.notes = {}

    # one behaviour set of the specification, replayed on every flavour
    def task(self, tag, seed, samples, steps, init, step, flavours, module=None):
        if self.stop or time.time() > self.deadline - 120:
            return
        lines, states, traces = quint_run(module or self.prop, self.scratch, tag, seed, samples, steps, init=init, step=step)
        path = os.path.join(self.scratch, tag + '.events')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        keep = False
        ok = True
        for fl in flavours:
            if self.stop:
                ok = False
                break
            bads, n = replay_file(self.drivers[fl](), fl, path, self.cfg['kinds'], self.scratch, extra=self.cfg.get('env'))
            with self.lock:
                self.replays += n
                if bads:
                    self.found += [(b, path, lines) for b in bads]
                    keep = True
                    ok = False
                    if len(self.found) >= 20:
                        self.stop = True
        with self.lock:
            self.states += states
            self.events += len(lines)
            if ok:
                self.traces += traces
            for l in lines:
                k = l.split(' ', 1)[0]
                self.by_op[k] = self.by_op.get(k, 0) + 1
            fingerprint(lines, self.distinct)
            if len(self.samples) < 6:
                self.samples += [l[:400] for l in random.Random(seed).sample(lines, min(2, len(lines)))]
        if not keep:
            os.unlink(path)

    def tasks(self):
        deep = self.tier == 'thorough'
        t = []
        nj = self.cfg.get('scanjobs', JOBS)
        for step, n, flavours in self.cfg.get('more', []):     # small tables of calls with long operands, or that need much memory
            t.append((step, self.seed * 1000 + 999, 1, n, 'init', step, flavours))
        for k in range(nj):
            t.append(('scan%d' % k, self.seed * 1000 + k, 1, 400000, 'from(%d, %d)' % (k, nj), 'scan', ['plain', 'asan']))
        waves = self.cfg.get('waves', 12) if deep else 1
        for w in range(waves):
            for step, steps, events in self.cfg['draws']:
                for k in range(JOBS):
                    t.append(('%s%d_%d' % (step, w, k), self.seed * 1000003 + w * 1009 + k * 31 + 7, max(1, events // steps), steps, 'init', step,
                              ['plain', 'asan'] if w % 3 == 0 else ['plain']))
        return t

    def explore(self):
        self.drivers = {fl: self.build.driver(fl, self.cpool) for fl in ('plain', 'asan')}
        limbs = self.lpool.submit(limb_models, self.prop, self.tier, self.scratch, self.deadline - 60)
        futures = [self.pool.submit(self.task, *x) for x in self.tasks()]
        for f in futures:
            f.result()
        done, late = limbs.result()
        if done:
            self.notes['limb_models'] = [dict(model=n, distinct_states=d, generated=g) for d, g, n in done]
            self.states += sum(d for d, g, n in done)
        if late:
            self.notes['limb_models_not_finished'] = late
        for fl in ('plain', 'asan'):
            self.drivers[fl]()     # a tree that does not build is an error even if nothing was replayed

    # ---------------------------------------------------------------- a mismatch becomes a violation
    def confirm(self):
        """Re-runs what was found; returns [(Bad, replay path, text)] of what happens again (or cannot be an accident)."""
        out = []
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for b, path, lines in self.found[:12]:
            if len(out) >= 3:
                break
            ev = lines[b.line - 1] if 0 < b.line <= len(lines) else ''
            first = history_start(lines, b.line) if ev else 1
            part = lines[first - 1:b.line] if ev else lines
            name = os.path.join(rdir, '%s-%d-%d.events' % (self.prop, self.seed, len(out)))
            again = None
            for attempt, ls in (('alone', part), ('alone', part), ('whole', lines[:b.line] if ev else lines)):
                with open(name, 'w') as f:
                    f.write('\n'.join(ls) + '\n')
                bs, _ = replay_file(self.drivers[b.flavour](), b.flavour, name, self.cfg['kinds'], self.scratch, extra=self.cfg.get('env'), max_restarts=1)
                if bs:
                    again = (attempt, bs)
                    break
            if again is None and b.kind == 'C':
                log('note: not repeated: %s' % b.text)
                continue
            with open(name, 'w') as f:
                f.write('# property %s, %s build. Replay: python3 %s/tools/replay.py %s\n# %s\n' % (self.prop, b.flavour, VERIF, name, b.text.replace('\n', ' ')))
                f.write('# kinds=%s env=%s\n' % (self.cfg['kinds'], ','.join('%s=%s' % z for z in self.cfg.get('env', {}).items())))
                f.write('\n'.join(ls) + '\n')
            out.append((b, name, ev))
        return out

    def finish(self, confirmed):
        known = known_findings(self.prop)
        fresh, listed = [], set()
        for b, name, ev in confirmed:
            hit = [k for k in known if k[0].search(ev) or k[0].search(b.text)]
            if hit:
                listed.add(hit[0][1])
            else:
                fresh.append((b, name, ev))
        for k in listed:
            log('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for b, name, ev in fresh:
            log('VIOLATION property=%s replay=%s' % (self.prop, name))
            log('  %s build: %s' % (b.flavour, b.text[:600]))
            if ev:
                log('  call: %s' % ev[:300])
        cov = {
            'states': self.states, 'transitions': self.events, 'traces_validated_against_impl': self.traces,
            'evaluations': self.replays, 'distinct_nontrivial': len(self.distinct),
            'rule': 'a case is one step of the specification (a public call in all its forms with its complete expected outcome); distinct by operation, operands and outcome; '
                    'evaluations counts replays of cases on the library (plain and AddressSanitizer builds)',
            'events_by_operation': self.by_op, 'samples': self.samples[:8],
        }
        cov.update(self.notes)
        write_evidence(self.prop, self.tier, self.seed, LEVEL.get(self.prop, 'model_checking'), cov, self.t0, len(fresh), ASSUME)
        log('%s %s seed %d: %d states, %d distinct calls, %d replays, %d behaviours accepted, %.1f s' % (
            self.prop, self.tier, self.seed, self.states, len(self.distinct), self.replays, self.traces, time.time() - self.t0))
        return 1 if fresh else 0

    def main(self):
        self.explore()
        return self.finish(self.confirm())


LEVEL = {}
ASSUME = ['the Quint simulator evaluates the specification correctly (its laws are checked in every state it visits)',
          'get_bits() and sign_internal() report the representation the object really has',
          'g++ 13 and AddressSanitizer; little-endian x86-64, the platform of the tests']


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = None
    try:
        cls = Check
        if prop == 'C18':
            from c18 import C18 as cls
        elif prop in ('C20', 'C21'):
            from cpy import CPy as cls
        elif prop == 'C23':
            from c23 import C23 as cls
        elif prop == 'C22':
            from c22 import C22 as cls
        c = cls(prop, tier, seed)
        rc = c.main()
    except ToolError as e:
        log('ERROR: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if c is not None:
            for p in (c.pool, c.cpool, c.lpool):
                p.shutdown(wait=False, cancel_futures=True)
            shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    sys.modules["check"] = sys.modules["__main__"]
    main()
