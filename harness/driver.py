#!/usr/bin/env python3
"""Replays behaviours of the Quint specification of the Python surface on the extension module built from the tree.

   driver.py run FILE PROGRESS [FROM]       (same lines and mismatch kinds as driver.cpp; module found by PYTHONPATH)
"""
import array, copy, math, mmap, operator, os, signal, struct, sys
sys.set_int_max_str_digits(0)
import pybiginteger
from pybiginteger import BigInteger as B

KINDS = os.environ.get('BI_KINDS', 'VO')
BAD_MAX = 40
state = {'line': 0, 'bad': 0}


def bad(kind, text):
    if kind not in KINDS:
        return
    state['bad'] += 1
    if state['bad'] <= BAD_MAX:
        print('BAD %d %s %s' % (state['line'], kind, str(text).replace('\n', ' ')[:700]), flush=True)


def show(x):
    return '%s %s' % (type(x).__name__, hex(x) if isinstance(x, int) else hex(int(x)) if isinstance(x, B) else repr(x)[:80])


def number(x):
    return 1 if x is True else 0 if x is False else int(x)


TYPES = [B, int, bool]


def same(what, x, want, ty=None):
    if ty is not None and type(x) is not ty:
        bad('T', '%s: result is %s, specification says %s' % (what, show(x), ty.__name__))
        return
    if number(x) != want:
        bad('V', '%s: got %s, specification says %s' % (what, show(x), hex(want)))


def outcome(f):
    try:
        return 'ok', f()
    except (TypeError, SystemError, NotImplementedError, MemoryError, AssertionError) as e:
        return 'exception %s: %s' % (type(e).__name__, str(e)[:120]), None
    except Exception as e:
        return 'refuse', e


def ends(what, f, err):
    k, r = outcome(f)
    want = 'refuse' if err else 'ok'
    if k != want:
        bad('E', '%s: ended with %s, specification says %s' % (what, show(r) if k == 'ok' else '%s %r' % (k, r), 'a refusal' if err else 'a result'))
        return None
    return (r,) if not err else None


# ------------------------------------------------------------------ making an object
def make(n, route=0):
    route %= 8
    if route == 1:
        return B(n.to_bytes(n.bit_length() // 8 + 1, 'little', signed=True))
    if route == 2:
        return B(n - 1) + B(1)
    if route == 3:
        return B(bytearray(n.to_bytes(n.bit_length() // 8 + 3, 'little', signed=True)))
    if route == 4:
        return -B(-n)
    if route == 5:
        return copy.deepcopy(B(n))
    return B(n)


def made(n, route):
    """An object for n; routes that do not work here are somebody else's violation."""
    if route % 8 not in (0, 6, 7):
        try:
            x = make(n, route)
            if isinstance(x, B) and int(x) == n:
                return x
        except Exception:
            pass
    return B(n)


def plain(n, route):
    """n as an int, or as the bool equal to it."""
    if n in (0, 1) and route % 3 == 1:
        return bool(n)
    return n


BINARY = [operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv, operator.mod, divmod, operator.pow,
          operator.lshift, operator.rshift, operator.and_, operator.or_, operator.xor,
          operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]
INPLACE = [operator.iadd, operator.isub, operator.imul, operator.itruediv, operator.ifloordiv, operator.imod, None, operator.ipow,
           operator.ilshift, operator.irshift, operator.iand, operator.ior, operator.ixor, None, None, None, None, None, None]
NAMES = ['+', '-', '*', '/', '//', '%', 'divmod', '**', '<<', '>>', '&', '|', '^', '<', '<=', '==', '!=', '>', '>=']
FORMS = ['BigInteger %s BigInteger', 'BigInteger %s int', 'int %s BigInteger']


def unchanged(what, pairs):
    for x, n in pairs:
        if number(x) != n:
            bad('O', '%s: an operand was %s and is now %s' % (what, hex(n), show(x)))


def op_pyop(route, err, a, r):
    c, f, x, y = a
    what = FORMS[f] % NAMES[c]
    X = plain(x, route) if f == 2 else made(x, route)
    Y = plain(y, route + 1) if f == 1 else made(y, route + 3)
    ty = TYPES[r[0]]
    for name, fn, p, q in (('', BINARY[c], X, Y), (' in place', INPLACE[c], X, Y), (' same object', BINARY[c] if x == y and f == 0 else None, X, X)):
        if fn is None:
            continue
        z = ends(what + name, lambda: fn(p, q), err)
        if z is None:
            continue
        if c == 6:
            if type(z[0]) is not tuple or len(z[0]) != 2:
                bad('T', '%s%s: result is %r' % (what, name, z[0]))
                continue
            same(what + name + ' quotient', z[0][0], r[1], ty)
            same(what + name + ' remainder', z[0][1], r[2], ty)
        else:
            same(what + name, z[0], r[1], ty)
    unchanged(what, ((X, x), (Y, y)))


def op_pypow(route, err, a, r):
    f, v, x, m = a
    what = 'pow(BigInteger, %s, %s)' % ('int' if f & 1 else 'BigInteger', 'int' if f & 2 else 'BigInteger')
    V = made(v, route)
    X = plain(x, route) if f & 1 else made(x, route + 1)
    M = plain(m, route) if f & 2 else made(m, route + 2)
    z = ends(what, lambda: pow(V, X, M), err)
    if z is not None:
        same(what, z[0], r[1], B)
    unchanged(what, ((V, v), (X, x), (M, m)))


def op_pyun(route, err, a, r):
    X = made(a[0], route)
    for name, fn, want in (('-', operator.neg, r[0]), ('+', operator.pos, r[1]), ('abs', abs, r[2]), ('~', operator.invert, r[3])):
        z = ends(name, lambda: fn(X), '')
        if z is not None:
            same(name, z[0], want, B)
    unchanged('unary', ((X, a[0]),))


def text(groups, neg):
    return ('-' if neg else '') + str(groups[-1]) + ''.join('%09d' % g for g in reversed(groups[:-1]))


def is_(what, got, want):
    if type(got) is not type(want) or got != want:
        bad('V', '%s: got %r, specification says %r' % (what, got if len(repr(got)) < 200 else repr(got)[:200], want if len(repr(want)) < 200 else repr(want)[:200]))


def op_pyobj(route, err, a, r):
    n = a[0]
    for how in ((route,) if route % 8 in (0, 6, 7) else (route, 0)):
        z = ends('construction, route %d' % (how % 8), lambda: make(n, how), '')
        if z is None:
            continue
        X = z[0]
        def get(what, f, want, refuse=''):
            k = ends(what, f, refuse)
            if k is not None and not refuse:
                is_(what, k[0], want)
        get('type', lambda: type(X), B)
        get('int', lambda: int(X), n)
        get('index', lambda: operator.index(X), n)
        get('hex', lambda: hex(X), hex(n))
        get('str', lambda: str(X), text(r[12:], n < 0))
        get('format', lambda: '%s' % X, text(r[12:], n < 0))
        le = r[1].to_bytes(r[0], 'little')
        get('bytes', lambda: bytes(X), le)
        get('to_array()', lambda: X.to_array(), le)
        get('to_array(False, True)', lambda: X.to_array(False, True), r[2].to_bytes(r[0], 'little'))
        get('to_array(is_bigendian=True)', lambda: X.to_array(is_bigendian=True), r[2].to_bytes(r[0], 'little'))
        us = 'refuse' if n < 0 else ''
        get('to_array(True)', lambda: X.to_array(True), r[4].to_bytes(r[3], 'little'), us)
        get('to_array(True, True)', lambda: X.to_array(is_unsigned=True, is_bigendian=True), r[5].to_bytes(r[3], 'little'), us)
        if r[6] < 0:
            get('float', lambda: float(X), None, 'refuse')
        else:
            get('float', lambda: struct.pack('<d', float(X)), r[6].to_bytes(8, 'little'))
        get('is_even', lambda: X.is_even(), bool(r[7]))
        get('is_power_of_two', lambda: X.is_power_of_two(), bool(r[8]))
        get('sign', lambda: X.sign, r[9])
        get('get_bit_Length', lambda: X.get_bit_Length(), r[10])
        get('bool', lambda: bool(X), not r[11])
        get('not', lambda: not X, bool(r[11]))
        get('hash', lambda: hash(X) == hash(n), True)
        get('deepcopy', lambda: type(copy.deepcopy(X)), B)
        get('deepcopy value', lambda: int(copy.deepcopy([X])[0]), n)
        get('BigInteger(int(x)) == x', lambda: B(int(X)) == X and X == n and n == X and not (X != n) and not (n != X), True)
        get('in a set', lambda: X in {n} and n in {X} and {X: 1}[n] == 1, True)
        get('foreign', lambda: [X == 'x', X != 'x', X == None, X == [n], X == 1.5 if n != 1 else False], [False, True, False, False, False])
        if 0 <= n < 50:
            get('range', lambda: len(range(X)), n)
            get('subscript', lambda: list(range(50))[X], n)
        get('unchanged', lambda: int(X), n)


def op_pycmp(route, err, a, r):
    x, y = a
    c = r[0]
    X, Y = made(x, route), made(y, route + 1)
    want = [c < 0, c <= 0, c == 0, c != 0, c > 0, c >= 0]
    for name, p, q in (('BigInteger, BigInteger', X, Y), ('BigInteger, int', X, y), ('int, BigInteger', x, Y)):
        for i in range(6):
            z = ends('%s %s' % (NAMES[13 + i], name), lambda: BINARY[13 + i](p, q), '')
            if z is not None:
                is_('%s (%s)' % (NAMES[13 + i], name), z[0], want[i])
    z = ends('hash', lambda: (hash(X), hash(Y), hash(x), hash(y)), '')
    if z is not None:
        h = z[0]
        if h[0] != h[2] or h[1] != h[3]:
            bad('V', 'hash: BigInteger and int of equal value hash differently (%s, %s)' % (hex(x), hex(y)))
        if c == 0 and h[0] != h[1]:
            bad('V', 'hash: equal objects hash differently (%s)' % hex(x))
    z = ends('sorted', lambda: [int(v) for v in sorted([X, y, Y, x])], '')
    if z is not None:
        is_('sorted', z[0], [min(x, y)] * 2 + [max(x, y)] * 2)
    z = ends('min, max', lambda: (int(max(X, Y)), int(min(X, Y))), '')
    if z is not None:
        is_('max, min', z[0], (max(x, y), min(x, y)))
    unchanged('comparison', ((X, x), (Y, y)))


def container(b, k):
    if k == 0:
        return b
    if k == 1:
        return bytearray(b)
    if k == 2:
        return memoryview(b)
    if k == 3:
        return memoryview(b[::-1])[::-1]
    if k == 4:
        return memoryview(b''.join(bytes((v, v ^ 0x55, 0xAA)) for v in b))[::3]
    if k == 5:
        return memoryview(b'\x80\xff' + b + b'\x7f\x00\xff')[2:2 + len(b)]
    if k == 6:
        return array.array('B', b)
    if k == 7:
        return memoryview(bytearray(b''.join(bytes((v ^ 0x33, v)) for v in reversed(b))))[::-2]
    if k == 8:
        return memoryview(memoryview(b + b'\xff').toreadonly())[:len(b)]
    # not a row of unsigned bytes: two dimensions, none, signed or character items, items of two and of four bytes
    if k == 9 and b:
        return memoryview(b).cast('B', [2, len(b) // 2] if len(b) % 2 == 0 else [len(b), 1] if len(b) > 1 else [])
    if k == 10:
        return memoryview(b).cast('b')
    if k == 11:
        return memoryview(b).cast('c')
    if k == 12 and len(b) % 4 == 0:
        return memoryview(b).cast('I')
    return array.array('H', b) if len(b) % 2 == 0 else memoryview(b).cast('b')


def op_pyfrom(route, err, a, r):
    u, n, k = a
    b = u.to_bytes(n, 'little')
    buf = container(b, k)
    if (buf.tobytes() if k > 8 else bytes(buf)) != b:
        raise SystemExit(9)
    if k > 8:      # may be refused; if not, it is the number its bytes are
        try:
            z = B(buf)
        except Exception:
            z = None
        if z is not None:
            same('BigInteger(%s of %d bytes, kind %d)' % (type(buf).__name__, n, k), z, r[0], B)
        if buf.tobytes() != b:
            bad('O', 'construction changed its buffer')
        return
    z = ends('BigInteger(%s)' % type(buf).__name__, lambda: B(buf), '')
    if z is not None:
        same('BigInteger(%s of %d bytes, kind %d)' % (type(buf).__name__, n, k), z[0], r[0], B)
        # the object does not follow the buffer it came from
        if k == 1 and n:
            for i in range(n):
                buf[i] ^= 0xA5
            same('BigInteger after its bytearray changed', z[0], r[0], B)
        elif bytes(buf) != b:
            bad('O', 'construction changed its buffer')


def dbl(n):
    return struct.unpack('<d', n.to_bytes(8, 'little'))[0]


def check_log(what, got, kind, fp):
    if type(got) is not float:
        bad('V', '%s: got %r' % (what, got))
        return
    if kind == 0:
        e = fp / (1 << 60) if abs(fp) < 1 << 1000 else float(fp >> 60)
        ok = math.isfinite(got) and abs(got - e) <= 2e-12 + 2e-12 * abs(e)
    else:
        ok = got == math.inf if kind == 1 else got == -math.inf if kind == 2 else math.isnan(got)
        e = kind
    if not ok:
        bad('V', '%s: got %r, specification says kind %d value %r' % (what, got, kind, e))


def op_pylog(route, err, a, r):
    for what, v in (('BigInteger', made(a[0], route)), ('int', plain(a[0], route))):
        z = ends('log(%s, base)' % what, lambda: B.log(v, dbl(a[1])), '')
        if z is not None:
            check_log('log(%s, %r)' % (what, dbl(a[1])), z[0], r[0], r[1])
    z = ends('log by keyword', lambda: B.log(value=made(a[0], route), base_value=dbl(a[1])), '')
    if z is not None:
        check_log('log by keyword', z[0], r[0], r[1])


def op_pyln(route, err, a, r):
    for what, v in (('BigInteger', made(a[0], route)), ('int', plain(a[0], route))):
        z = ends('log(%s)' % what, lambda: (B.log(v), B.log10(v)), '')
        if z is not None:
            check_log('log(%s)' % what, z[0][0], r[0], r[1])
            check_log('log10(%s)' % what, z[0][1], r[2], r[3])


def op_pyconst(route, err, a, r):
    for name, want in zip(('zero', 'one', 'minus_one'), r):
        z = ends(name, lambda: getattr(B, name)(), '')
        if z is not None:
            same(name, z[0], want, B)
            y = z[0]
            y += 5
            y <<= 3
            same(name + ' again', getattr(B, name)(), want, B)
            same(name + ' of before', z[0], want, B)
    z = ends('default arguments', lambda: B(value=7), '')
    if z is not None:
        same('BigInteger(value=7)', z[0], 7, B)


# ------------------------------------------------------------------ the register machine over names
regs = []
live = []        # every object made lately, with the value it was made with


def gcd(x, y):
    n = 0
    while y:
        x, y = y, x % y
        n += 1
        if n > 20000:
            raise RuntimeError('gcd by remainders does not end')
    return abs(x)


def perform(c, d, i, j, k, m, route):
    g = regs
    if c == 0:
        g[d] = made(m, route)
    elif c == 1:
        g[d] = g[i]
    elif c < 10:
        g[d] = [operator.add, operator.sub, operator.mul, operator.floordiv, operator.mod, operator.and_, operator.or_, operator.xor][c - 2](g[i], g[j])
    elif c < 18:
        n = c - 10
        if n == 0: g[d] += g[j]
        elif n == 1: g[d] -= g[j]
        elif n == 2: g[d] *= g[j]
        elif n == 3: g[d] /= g[j]
        elif n == 4: g[d] %= g[j]
        elif n == 5: g[d] &= g[j]
        elif n == 6: g[d] |= g[j]
        else: g[d] ^= g[j]
    elif c < 23:
        y = int(g[j])
        g[d] = [operator.add, operator.sub, operator.mul, operator.truediv, operator.mod][c - 18](g[i], y)
    elif c == 23:
        q, r = divmod(g[i], g[j])
        g[k] = r
        g[d] = q
    elif c < 26:
        g[d] = -g[i]
    elif c == 26:
        g[d] = +g[i]
    elif c == 27:
        g[d] = abs(g[i])
    elif c == 28:
        g[d] = ~g[i]
    elif c == 29:
        g[d] += 1
    elif c == 30:
        g[d] -= 1
    elif c == 31:
        t = g[i]
        g[i] += 1
        g[d] = t
    elif c == 32:
        t = g[i]
        g[i] -= 1
        g[d] = t
    elif c == 33:
        g[d] = g[i] << m
    elif c == 34:
        g[d] = g[i] >> m
    elif c == 35:
        g[d] <<= m
    elif c == 36:
        g[d] >>= m
    elif c == 37:
        g[d] = g[i] ** m
    elif c == 38:
        g[d] = pow(g[i], g[j], g[k])
    elif c == 39:
        g[d] = gcd(g[i], g[j])
    elif c == 40:
        g[d] = B(int(str(g[i])))
    elif c == 41:
        b = g[i].to_array(is_unsigned=m >= 2, is_bigendian=m % 2 == 1)
        b = b[::-1] if m % 2 else b
        g[d] = B(b + b'\0' if m >= 2 else b)
    elif c == 42:
        x = g[i]
        hash(x), str(x), bytes(x), int(x), bool(x), x == g[j], x < g[j], x.sign, x.is_even(), x.get_bit_Length(), copy.deepcopy(x), {x: 1}
    elif c == 44:
        g[d] = B(g[i].to_array(True) + b'\0')
    elif c >= 100:
        f, o = divmod(c - 100, 20)
        by_m = 7 <= o <= 9
        if f == 5:
            g[d] = pow(g[i], int(g[j]) if m & 1 else g[j], int(g[k]) if m & 2 else g[k])
        elif f == 1:
            z = BINARY[o](int(g[i]), B(m) if by_m else g[j])
            if o == 6:
                if type(z[0]) is not int or type(z[1]) is not int:
                    bad('T', 'divmod(int, BigInteger): result is %r' % (z,))
                g[k] = B(z[1])
                g[d] = B(z[0])
            else:
                if type(z) is not int:
                    bad('T', 'int %s BigInteger: result is a %s' % (NAMES[o], type(z).__name__))
                g[d] = B(z)
        else:
            y = (m if f in (0, 2) else B(m)) if by_m else int(g[j]) if f in (0, 2) else g[j]
            z = (INPLACE if f in (2, 3) else BINARY)[o](g[d] if f in (2, 3) else g[i], y)
            if o == 6:
                g[k] = z[1]
                g[d] = z[0]
            else:
                g[d] = z
    else:
        g[d] = copy.deepcopy(g[d])


def op_h(route, err, a, r):
    c, d, i, j, k, m = a
    if c == 45:
        regs[:] = [B(0) for _ in r]
        del live[:]
        return
    if len(regs) != len(r):
        return
    what = 'history step %d(d=%d,i=%d,j=%d,k=%d,imm=%s)' % (c, d, i, j, k, hex(m)[:80])
    was = [int(x) for x in regs]
    objs = list(regs)
    kk, e = outcome(lambda: perform(c, d, i, j, k, m, route))
    want = 'refuse' if err else 'ok'
    if kk != want:
        bad('E', '%s: ended with %s %r, specification says %s' % (what, kk, e, want))
    for t in range(len(regs)):
        if not isinstance(regs[t], B):
            bad('T', '%s: the result is a %s' % (what, type(regs[t]).__name__))
        elif int(regs[t]) != r[t]:
            bad('V', '%s: name %d is %s, specification says %s (was %s)' % (what, t, hex(int(regs[t])), hex(r[t]), hex(was[t])))
    for x, n in zip(objs, was):
        if int(x) != n:
            bad('O', '%s: an object was %s and is now %s' % (what, hex(n), hex(int(x))))
    for x, n, h in live:
        if int(x) != n or hash(x) != h:
            bad('O', '%s: an object made earlier was %s and is now %s' % (what, hex(n), hex(int(x))))
    for t in range(len(regs)):
        if not isinstance(regs[t], B) or int(regs[t]) != r[t]:
            regs[t] = B(r[t])
    live.append((regs[d], int(regs[d]), hash(regs[d])))
    del live[:-40]


OPS = {k[3:]: v for k, v in globals().items() if k.startswith('op_')}


def leak(path, pm, reps=2000):
    """One call of every kind, made again and again: the interpreter's own caches fill up, what a call loses goes on growing."""
    import ctypes, gc
    lib = ctypes.CDLL(None)
    lib.bi_blocks.restype = lib.bi_bytes.restype = ctypes.c_longlong
    watchdog = int(os.environ.get('BI_WATCHDOG', '30')) * 3
    kinds = {}
    with open(path) as f:
        for no, line in enumerate(f, 1):
            if line[0] == '#' or not line.strip():
                continue
            left, _, right = line.partition('|')
            w = left.split()
            if w[0] in ('init', 'skip', 'h'):
                continue
            a = [int(x, 16) for x in w[3:]]
            shape = tuple(x if i < 2 and 0 <= x < 20 and len(a) > 2 else (x < 0, x.bit_length() > 31) for i, x in enumerate(a[:4]))
            kinds.setdefault((w[0], w[2], int(w[1]) % 8 if w[0] == 'pyfrom' else 0, shape), (no, OPS[w[0]], int(w[1]), '' if w[2] == '-' else w[2], a, [int(x, 16) for x in right.split()], w[0]))
    n = 0
    gc.collect()
    for no, f, route, err, a, want, op in list(kinds.values())[:500]:
        state['line'] = no
        pm[:8] = no.to_bytes(8, 'little')
        signal.alarm(watchdog)
        at = [0, 0]
        for half in (0, 1):
            for _ in range(reps // 2):
                try:
                    f(route, err, [(x << 1) >> 1 for x in a], list(want)) # operands of its own: what the call keeps of them grows
                except Exception:
                    pass
            gc.collect()
            at[half] = lib.bi_blocks()
        n += reps
        if os.environ.get('BI_LEAK_VERBOSE') and at[1] - at[0] > reps // 50:
            print(no, op, at[1] - at[0], file=sys.stderr)
        if at[1] - at[0] >= reps // 3:
            bad('M', '%s: made %d times, the call leaves %d blocks of storage behind' % (op, reps // 2, at[1] - at[0]))
    signal.alarm(0)
    print('DONE %d %d' % (n, state['bad']), flush=True)
    os._exit(1 if state['bad'] else 0)


def main():
    path, prog = sys.argv[2], sys.argv[3]
    if sys.argv[1] == 'leak':
        with open(prog, 'r+b') as f:
            leak(path, mmap.mmap(f.fileno(), 8))
    start = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    watchdog = int(os.environ.get('BI_WATCHDOG', '30'))
    with open(prog, 'r+b') as f:
        pm = mmap.mmap(f.fileno(), 8)
    n = 0
    with open(path) as f:
        for no, line in enumerate(f, 1):
            if no < start or line[0] == '#' or not line.strip():
                continue
            left, _, right = line.partition('|')
            w = left.split()
            op, route, err = w[0], int(w[1]), '' if w[2] == '-' else w[2]
            if op in ('init', 'skip'):
                continue
            a = [int(x, 16) for x in w[3:]]
            r = [int(x, 16) for x in right.split()]
            state['line'] = no
            pm[:8] = no.to_bytes(8, 'little')
            signal.alarm(watchdog)
            try:
                OPS[op](route, err, a, r)
            except Exception as e:
                bad('E', '%s: unexpected %s: %s' % (op, type(e).__name__, e))
            n += 1
            if state['bad'] > BAD_MAX:
                break
    print('DONE %d %d' % (n, state['bad']), flush=True)
    os._exit(1 if state['bad'] else 0)


if __name__ == '__main__':
    main()
