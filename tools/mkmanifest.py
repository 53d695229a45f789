#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMB = {'C02': 'AddSub', 'C03': 'Mul', 'C04': 'Div', 'C05': 'Mul', 'C06': 'Barrett', 'C07': 'Gcd', 'C08': 'Twos', 'C09': 'Twos', 'C10': 'AddSub', 'C11': 'Twos', 'C12': 'Text', 'C16': 'Twos'}
TECH = 'Quint specification simulated (laws checked in every state); its behaviours replayed on the library, outcome compared in full'
NOTE = ('Every call of a finite table and a seeded random sample of calls, with the outcome the specification fixes, is made on the real library in all its forms '
        '(g++ -O2, and AddressSanitizer). Trusts the Quint simulator\'s integers and the few lines of the driver that read limbs; says nothing about operands beyond the generated sizes.')
EXTRA = {
 'C17': ('Quint register-machine specification; behaviours (all alias patterns, refused calls) replayed, every object compared after each step', None),
 'C18': ('Quint behaviours replayed permuted, repeated, from static initialisers and from many threads; ThreadSanitizer', 'Thread schedules are sampled by the operating system, not enumerated; ThreadSanitizer reports unsynchronised access on every schedule it sees.'),
 'C22': ('Quint behaviours (all operations, histories, Python objects) replayed for many rounds in one process, storage held compared between rounds', 'Storage is counted at malloc; what stays must stop growing.'),
 'C23': ('Quint register-machine specification with calls that stop when storage is refused; behaviours replayed once per request for storage of each call, with that request refused', 'Requests are refused one by one (all up to the 48th of a call, then ever sparser), alone or with all later ones; AddressSanitizer.'),
 'C20': ('Quint specification of the Python operators; its behaviours replayed on the built extension module', 'Replays on CPython 3.12 with pybind11 as installed.'),
 'C21': ('Quint specification of the Python object surface and register machine; behaviours replayed on the built extension module', 'Replays on CPython 3.12 with pybind11 as installed.'),
}
done = sys.argv[1:] or ['C%02d' % i for i in range(1, 24)]
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks: the checks use the public API of the library only. See DESIGN.md.'}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p not in done:
        man['not_applicable'].append({'property': p, 'reason': 'check under construction'})
        continue
    t, n = EXTRA.get(p, (TECH, None))
    if p in LIMB:
        t = (t or TECH) + '; TLA+ model %s of the limb algorithm checked exhaustively by TLC over a small base' % LIMB[p]
    man['checks'].append({'property': p, 'quick_cmd': 'python3 tools/check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + p,
                          'technique': t or TECH, 'level': 'model_checking', 'level_note': NOTE + (' ' + n if n else '')})
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
