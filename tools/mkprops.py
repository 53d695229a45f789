#!/usr/bin/env python3
"""Writes spec/Cxx.qnt: one state machine per property, from the list below (the meaning is in the imported modules)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
# property: (comment, [(size, call)] of the scan, [(weight, draw)])
P = {
 'C02': ('addition, subtraction, unary operators', [('NPAIRS', 'mAddsub(pairA(i), pairB(i))'), ('1249', 'mUnary(sword4(i))'), ('14 * 140', 'mUnary(near2(i))'),
         ('NSIZEPAIRS', 'mAddsub(bigA(i), bigB(i))')], [(4, 'gAddsub(s)'), (1, 'gUnary(s)')]),
 'C03': ('multiplication and squaring', [('15625', 'mMul(word(i / 125), -word(i % 125))'), ('8 * 160', 'mSq(shape(i % 8, i / 8 + 1))'), ('NSIZEPAIRS', 'mMul(bigA(i), bigB(i))')],
         [(3, 'gMul(s)'), (1, 'gSq(s)')]),
 'C04': ('division and remainder', [('NPAIRS', 'mDivmod(pairA(i), pairB(i))'), ('NSIZEPAIRS', 'mDivmod(bigA(i), bigB(i))')], [(1, 'gDivmod(s)')]),
 'C05': ('integer powers', [('NPOW', 'sPow(i)'), ('NPOWBIG', 'sPowBig(i)'), ('249 * 12', 'mPow(SWORD[i / 12], i % 12)')], [(1, 'gPow(s)')]),
 'C06': ('modular power', [('NMOD', 'sModpow(i)')], [(1, 'gModpow(s)')]),
 'C07': ('greatest common divisor', [('NCHAIN', 'sChain(i)'), ('15625', 'mGcd(word(i / 125), word(i % 125))')], [(1, 'gGcd(s)')]),
 'C08': ('shifts', [('249 * SHIFTS', 'sShift(i)')], [(1, 'gShift(s)')], [('huge', '6', 'sHuge')]),
 'C09': ('bitwise operations', [('NPAIRS', 'mBit(pairA(i), pairB(i))')], [(1, 'gBit(s)')]),
 'C10': ('order, equality, hash', [('NPAIRS', 'mCmp(pairA(i), pairB(i))')], [(1, 'gCmp(s)')]),
 'C11': ('byte and limb encodings', [('NB5', 'sFrombytes(i)'), ('NPAD', 'sPad(i)'), ('1249', 'mBytes(sword4(i))'), ('14 * 200', 'mBytes(near2(i))')],
         [(2, 'gBytes(s)'), (2, 'gFrombytes(s)'), (1, 'gFromlimbs(s)')]),
 'C12': ('decimal text', [('NTEXT', 'sText(i)'), ('NPARSE', 'sParse(i)'), ('1249', 'mText(sword4(i))')], [(1, 'gText(s)'), (1, 'gParse(s)')]),
 'C13': ('machine integers', [('NMACH', 'mMachine(near2(i))'), ('249', 'mMachine(SWORD[i])')], [(1, 'gMachine(s)')]),
 'C14': ('floating point', [('NFROMDBL', 'sFromdbl(i)'), ('NTODBL', 'sTodbl(i)'), ('14 * 70', 'mTodbl(near2(i))'), ('14 * 12', 'mTodbl(near2(i + 14 * 1018))')],
         [(1, 'gTodbl(s)'), (1, 'gFromdbl(s)')]),
 'C15': ('logarithms', [('NLOG', 'sLog(i)')], [(1, 'gLog(s)')]),
 'C16': ('predicates and sizes', [('NPRED', 'sPred(i)'), ('1249', 'mPred(sword4(i))'), ('14 * 200', 'mPred(near2(i))'), ('1', 'mConsts')], [(1, 'gPred(s)')]),
 'C19': ('refusals and totality: every operation on every combination of operand shapes, then everything at random',
         [('NMOD', 'sModpow(i)'), ('NPOW', 'sPow(i)'), ('NPOWBIG', 'sPowBig(i)'), ('NANY', 'sAny(i)'), ('NMACH', 'mMachine(near2(i))'), ('NFROMDBL / 8', 'sFromdbl(i * 8 + i % 8)'), ('NB5', 'sFrombytes(i)'), ('NPARSE', 'sParse(i)')],
         [(1, 'gAny(s)')]),
}
HEAD = '''// -*- mode: Bluespec; -*-
// %s: %s.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module %s {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
%s
  var ev: Ev
  var at: int
  var by: int
'''
LONG = {'C02': [('NLADD', 'lAddsub')], 'C03': [('NLMUL', 'lMul'), ('NLSQ', 'lSq')], 'C04': [('NLDIV', 'lDivmod')], 'C05': [('NLPOW', 'lPow')], 'C06': [('NLMOD', 'lModpow')],
        'C07': [('NLGCD', 'lGcd')], 'C08': [('NLSHIFT', 'lShift')], 'C09': [('NLBIT', 'lBit')], 'C10': [('NLCMP', 'lCmp')], 'C11': [('NLBYTES', 'lBytes'), ('NLFROM', 'lFrombytes')],
        'C12': [('NLTEXT', 'lText'), ('NLPARSE', 'lParse')], 'C14': [('NLDBL', 'lTodbl')], 'C15': [('NLLOG', 'lLog')], 'C16': [('NLPRED', 'lPred')]}
GIANT = {'C02': [('NXADD', 'xAddsub'), ('NXUN', 'xUnary')], 'C03': [('NXMUL', 'xMul'), ('NXSQ', 'xSq')], 'C04': [('NXDIV', 'xDivmod')], 'C05': [('NXPOW', 'xPow')],
         'C06': [('NXMOD', 'xModpow')], 'C07': [('NXGCD', 'xGcd')], 'C08': [('NXSHIFT', 'xShift')], 'C09': [('NXBIT', 'xBit')], 'C10': [('NXCMP', 'xCmp')],
         'C11': [('NXBYTES', 'xBytes'), ('NXFROM', 'xFrombytes')], 'C12': [('NXTEXT', 'xText'), ('NXPARSE', 'xParse')], 'C13': [('NXMACH', 'xMachine')], 'C14': [('NXDBL', 'xTodbl')],
         'C15': [('NXLOG', 'xLog')], 'C16': [('NXPRED', 'xPred')]}
def two(t):
    return '%s(n)' % t[0][1] if len(t) == 1 else 'if (n < %s) %s(n) else %s(n - %s)' % (t[0][0], t[0][1], t[1][1], t[0][0])
def props():
    for p, (what, tab, dr, *more) in P.items():
        needs = ''.join('  import %s.* from "./%s"\n' % (m, m) for m in (['history', 'scan', 'every'] if p == 'C19' else ['scan'] + (['long'] if p in LONG else []) + (['giant'] if p in GIANT else [])))
        s = HEAD % (p, what, p, needs.rstrip('\n'))
        s += '\n  pure val SIZE = ' + ' + '.join(n for n, _ in tab) + '\n  pure def table(n: int): Ev = {\n'
        # nested ifs with a running offset
        off = '0'
        body = ''
        for k, (n, call) in enumerate(tab):
            s += '    pure val o%d = %s\n' % (k, off)
            off = 'o%d + %s' % (k, n)
        for k, (n, call) in enumerate(tab):
            arg = '{ val i = n - o%d %s }' % (k, call)
            body += ('    if (n < o%d) %s\n    else ' % (k + 1, arg)) if k + 1 < len(tab) else arg + '\n'
        s += body.replace('\n    else     if', '\n    else if') + '  }\n'
        tot = sum(w for w, _ in dr)
        if len(dr) == 1:
            s += '  pure def some(s: int): Ev = %s\n' % dr[0][1]
        else:
            s += '  pure def some(s: int): Ev = {\n    val k = pick(s, 7777, %d)\n    ' % tot
            a = 0
            for j, (w, g) in enumerate(dr):
                a += w
                s += ('if (k < %d) %s else ' % (a, g)) if j + 1 < len(dr) else g
            s += '\n  }\n'
        s += '''
  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
EXTRA
  val lawful = law(ev)
}
'''
        extra = more[0] if more else []
        for name, tab in (('long', LONG), ('giant', GIANT)):
            if p in tab:
                s = s.replace('EXTRA\n', '  pure def %ss(n: int): Ev = %s\nEXTRA\n' % (name, two(tab[p])))
                extra = extra + [(name, ' + '.join(n for n, _ in tab[p]), name + 's')]
        s = s.replace('EXTRA\n', ''.join('  action %s = all { at < %s, ev\' = %s(at), at\' = at + by, by\' = by }\n' % x for x in extra) + ('\n' if extra else '\n'))
        open(os.path.join(HERE, '..', 'spec', p + '.qnt'), 'w').write(s)
props()
