"""The limb algorithms (spec/limbs, TLA+) checked exhaustively by TLC over small bases."""
import os, re, shutil
from common import *

# property: [(module, cfg, constants at quick, constants at thorough)]
MODELS = {
    'C02': [('AddSub', 'AddSub', {}, [dict(K=2, LIM=260), dict(K=3, LIM=280)])],
    'C03': [('Mul', 'Mul', dict(K=1, LL=6, LR=6), [{}, dict(K=1, LL=8, LR=7), dict(K=2, LL=5, LR=4)])],
    'C04': [('Div', 'Div', dict(K=2, LA=4, LB=2), [{}, dict(K=3, LA=3, LB=2), dict(K=2, LA=5, LB=3)])],
    'C05': [('Mul', 'Mul', dict(K=2, LL=4, LR=3), [{}])],
    'C06': [('Barrett', 'Barrett', {}, [dict(K=3, KL=2, XL=1), dict(K=2, KL=3, XL=1)])],
    'C07': [('Gcd', 'Gcd', dict(K=3, LX=3, LY=2), [{}, dict(K=4, LX=2, LY=2)])],
    'C08': [('Twos', 'Twos', {}, [dict(K=8, LIM=4000, SH=17), dict(K=4, N=3, LIM=4000, SH=14)])],
    'C09': [('Twos', 'TwosPair', {}, [dict(LIM=255)])],
    'C10': [('AddSub', 'AddSub', dict(K=3, LIM=140), [dict(K=3, LIM=280)])],
    'C11': [('Twos', 'Twos', {}, [dict(K=8, LIM=4000, SH=2), dict(K=4, N=3, LIM=4000, SH=2)])],
    'C12': [('Text', 'Text', {}, [dict(K=7, G=2, N=3), dict(K=4, G=1, N=4)])],
    'C16': [('Twos', 'Twos', dict(K=4, LIM=255, SH=1), [dict(K=8, LIM=4000, SH=1)])],
}


def tlc(module, cfg, const, scratch, tag, workers=4, timeout=840):
    """Runs TLC in a scratch copy of the modules. Returns (distinct states, states generated, constants)."""
    d = os.path.join(scratch, 'limbs-' + tag)
    shutil.copytree(os.path.join(SPEC, 'limbs'), d, ignore=shutil.ignore_patterns('states', '*.old'))
    text = open(os.path.join(d, cfg + '.cfg')).read()
    for k, v in const.items():
        text, n = re.subn(r'\b%s = \S+' % k, '%s = %s' % (k, v), text)
        if n != 1:
            raise ToolError('%s has no constant %s' % (cfg, k))
    with open(os.path.join(d, 'X.cfg'), 'w') as f:
        f.write(text)
    rc, o, e = run(['tlc', '-workers', str(workers), '-deadlock', '-metadir', os.path.join(d, 'meta'), '-config', 'X.cfg', module + '.tla'],
                   timeout, cwd=d, env=dict(os.environ, JAVA_TOOL_OPTIONS='-Xmx3g'))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', o)
    shutil.rmtree(d, ignore_errors=True)
    if rc is None:
        return None
    if rc != 0 or not m or 'No error has been found' not in o:
        raise ToolError('TLC, %s %s: exit %s\n%s\n%s' % (module, const, rc, o[-3000:], e[-500:]))
    shown = ', '.join('%s=%s' % z for z in re.findall(r'^(\w+) = (\S+)$', text.replace('CONSTANTS ', ''), re.M))
    return int(m.group(2)), int(m.group(1)), '%s(%s)' % (module, shown)


def limb_models(prop, tier, scratch, deadline):
    """All models of a property at this tier; a model that does not end in time is left out (and said to be)."""
    out, late = [], []
    for i, (module, cfg, quick, deep) in enumerate(MODELS.get(prop, [])):
        for j, c in enumerate([quick] + (deep if tier == 'thorough' else [])):
            left = deadline - time.time()
            r = tlc(module, cfg, c, scratch, '%d_%d' % (i, j), timeout=left) if left > 20 else None
            if r is None:
                late.append('%s %s' % (module, c))
            else:
                out.append(r)
    return out, late
