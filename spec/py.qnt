// -*- mode: Bluespec; -*-
// The Python surface: what every operator yields for BigInteger and int operands, and what an object shows.
module py {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"
  import scan.* from "./scan"

  // ---- operators. form 0: BigInteger op BigInteger, 1: BigInteger op int, 2: int op BigInteger.
  // The result's type: 0 BigInteger, 1 int, 2 bool. A refusal is some Python exception that is not TypeError.
  pure val ADD = 0   pure val SUB = 1   pure val MUL = 2   pure val TRUEDIV = 3   pure val FLOORDIV = 4   pure val MOD = 5
  pure val DIVMOD = 6   pure val POW = 7   pure val LSH = 8   pure val RSH = 9   pure val AND = 10   pure val OR = 11   pure val XOR = 12
  pure val LT = 13   pure val LE = 14   pure val EQ = 15   pure val NE = 16   pure val GT = 17   pure val GE = 18
  pure val NOPS = 19
  pure def isInt32(n: int): bool = I32MIN <= n and n <= I32MAX

  // the library's results, whatever the operand types are
  pure def pyValue(c: int, x: int, y: int): { e: str, r: List[int] } = {
    pure val refused = { e: "refuse", r: [] }
    if (c == ADD) { e: "", r: [x + y] } else if (c == SUB) { e: "", r: [x - y] } else if (c == MUL) { e: "", r: [x * y] }
    else if (c <= DIVMOD) {
      if (y == 0) refused
      else if (c == MOD) { e: "", r: [trem(x, y)] } else if (c == DIVMOD) { e: "", r: [tdiv(x, y), trem(x, y)] } else { e: "", r: [tdiv(x, y)] }
    }
    else if (c == POW) { if (y < 0 or not(isInt32(y)) or tooLarge(x, y)) refused else { e: "", r: mPow(x, y).r } }
    else if (c == LSH) { if (not(isInt32(y))) refused else { e: "", r: [shl(x, y)] } }
    else if (c == RSH) { if (not(isInt32(y))) refused else { e: "", r: [shr(x, y)] } }
    else if (c == AND) { e: "", r: [band(x, y)] } else if (c == OR) { e: "", r: [bor(x, y)] } else if (c == XOR) { e: "", r: [bxor(x, y)] }
    else { e: "", r: [b2i(if (c == LT) x < y else if (c == LE) x <= y else if (c == EQ) x == y else if (c == NE) x != y else if (c == GT) x > y else x >= y)] }
  }
  pure def pyType(c: int, f: int): int = if (c >= LT) 2 else if (f == 2) 1 else 0
  pure def mPyop(c: int, f: int, x: int, y: int): Ev = {
    val z = pyValue(c, x, y)
    { op: "pyop", a: [c, f, x, y], e: z.e, r: [pyType(c, f)].concat(z.r) }
  }
  // calls whose result would not fit in memory are not made
  pure def pySmall(c: int, x: int, y: int): bool =
    if (c == POW) iabs(x) <= 1 or y < 0 or not(isInt32(y)) or bits(iabs(x)) * y < 9000
    else if (c == LSH) not(isInt32(y)) or y < 5000
    else if (c == RSH) not(isInt32(y)) or y > -5000
    else true
  // pow(base, exponent, modulus): base a BigInteger; f bit 0: exponent is an int, bit 1: modulus is an int
  pure def mPypow(f: int, v: int, x: int, m: int): Ev = {
    val z = mModpow(v, x, m)
    { op: "pypow", a: [f, v, x, m], e: if (z.e == "") "" else "refuse", r: [0].concat(z.r) }
  }
  pure def mPyun(x: int): Ev = { op: "pyun", a: [x], e: "", r: [-x, x, iabs(x), bnot(x)] }

  // ---- what one object shows
  // kind 1: is a refusal. tc bytes, little and big endian; unsigned bytes; the nearest double; sign, predicates, bit length; text
  pure def mPyobj(x: int): Ev = {
    val b = mBytes(x)
    val p = mPred(x)
    { op: "pyobj", a: [x], e: "", r: [b.r[0], b.r[1], b.r[2], b.r[3], b.r[4], b.r[5], nearestDouble(x), p.r[0], p.r[3], p.r[4], p.r[5], p.r[2]].concat(groups(x)) }
  }
  pure def mPycmp(x: int, y: int): Ev = { op: "pycmp", a: [x, y], e: "", r: [sgn(x - y)] }
  // a word of n bytes in one of the containers: 0 bytes, 1 bytearray, 2 memoryview, 3 reversed view, 4 every third byte, 5 part of a longer
  // buffer, 6 array, 7 every other byte backwards, 8 read-only view of a view. 9 to 13 are not rows of unsigned bytes (dimensions, item types): refused, or taken for the bytes they are
  pure val CONTAINERS = 14
  pure def mPyfrom(u: int, n: int, k: int): Ev = { op: "pyfrom", a: [u, n, k], e: "", r: [decodeTc(u, n, 8)] }
  pure def mPylog(v: int, d: int): Ev = { val z = logOf(v, d) { op: "pylog", a: [v, d], e: "", r: [z.kind, z.fp] } }
  pure def mPyln(v: int): Ev = { val z = mLn(v) { op: "pyln", a: [v], e: "", r: z.r } }
  pure val mPyconst: Ev = { op: "pyconst", a: [], e: "", r: [0, 1, -1] }

  // ---- drawing
  pure def gPyop(s: int): Ev = {
    val c = if (pick(s, 7000, 3) == 0) pick(s, 7001, NOPS) else pick(s, 7001, LT)
    val f = pick(s, 7002, 3)
    val v = if (c == ADD or c == SUB) gAddsub(s).a else if (c == MUL) gMul(s).a else if (c <= DIVMOD) gDivmod(s).a else if (c == POW) gPow(s).a
            else if (c == LSH or c == RSH) gShift(s).a else if (c <= XOR) gBit(s).a else gCmp(s).a
    val y = if ((c == POW or c == LSH or c == RSH) and pick(s, 7003, 12) == 0) signed(s, 7004, edge(s, 7005) * [1, 3, 2^32, 2^40][pick(s, 7006, 4)])
            else if (c <= DIVMOD and c >= TRUEDIV and pick(s, 7003, 20) == 0) 0 else v[1]
    if (pySmall(c, v[0], y)) mPyop(c, f, v[0], y) else mPyop(ADD, f, v[0], y)
  }
  pure def gPypow(s: int): Ev = { val v = gModpow(s) mPypow(pick(s, 7000, 4), v.a[0], v.a[1], v.a[2]) }
  pure def gPyobj(s: int): Ev = {
    val k = pick(s, 7000, 4)
    mPyobj(if (k == 0) gTodbl(s).a[0] else if (k == 1) gText(s).a[0] else if (k == 2) gPred(s).a[0] else operand(s, 0, [2, 3, 5, 12, 36][pick(s, 1, 5)]))
  }
  pure def gPycmp(s: int): Ev = { val v = gCmp(s) mPycmp(v.a[0], v.a[1]) }
  pure def gPyfrom(s: int): Ev = { val w = byteword(s) mPyfrom(w.u, w.n, pick(s, 7000, CONTAINERS)) }
  pure def gPylog(s: int): Ev = { val v = gLog(s) if (v.op == "log") mPylog(v.a[0], v.a[1]) else mPyln(v.a[0]) }

  // ---- tables
  pure val PF = [0, 1, -1, 2, -2, 3, -7, 10, 127, 128, -128, -129, 255, 256, -256, 32767, -32768, 65536, 2147483647, -2147483647, 2147483648, -2147483648, -2147483649,
    U32MAX, -U32MAX, W, -W, 9223372036854775807, 9223372036854775808, -9223372036854775808, -9223372036854775809, 2^64 - 1, -(2^64), 10^20, 2^95, -(2^96), 1 - 2^128,
    2^200 + 1, -(10^60), 2^1024]
  pure val NPF = 40
  pure val PE = [0, 1, 2, 3, 5, 17, 31, 32, 33, 64, 65, 96, 127, 500, -1, -2, -31, -32, -33, -64, -95, -500, 2147483647, -2147483647, -2147483648, 2147483648, -2147483649,
    U32MAX, W, -W, W + 1, 9223372036854775807, -9223372036854775808, 9223372036854775808, 2^64, 2^64 + 1, -(2^64), 10^20, -(10^30), 2^200]
  pure val NPYOPS = 19 * 3 * 1600
  pure def sPyop(i: int): Ev = {
    val c = i / 4800
    val f = (i / 1600) % 3
    val x = PF[(i / 40) % 40]
    val y = if (c == POW or c == LSH or c == RSH) PE[i % 40] else PF[i % 40]
    if (pySmall(c, x, y)) mPyop(c, f, x, y) else mPyun(x + i)
  }
  pure val MV = [0, 1, -1, 2, -3, 255, -256, 2147483647, -2147483648, W, -W, 2^95 + 1, -(2^127), 1 - 2^1056]
  pure val NPYPOW = 4 * 14 * 16 * 14
  pure def sPypow(i: int): Ev = mPypow(i % 4, MV[(i / 4) % 14], MODX[(i / 56) % 16], MV[i / 896])
  pure val NPYFROM = 3906 * 14
  pure def sPyfrom(i: int): Ev = { val v = sFrombytes(4 * (i / 14)) mPyfrom(v.a[0], v.a[1], i % 14) }
  pure val NPYFROM2 = 9 * 65536 / 32
  pure def sPyfrom2(i: int): Ev = mPyfrom((i / 9) * 32 + (i * 7) % 32, 2, i % 9)

  // ---- immutability: the register machine, with the calls Python has; registers are names, several may hold one object
  pure def pyCall(c: Call): Call = if (c.o == 43 or c.o == 46) { o: 42, d: c.d, i: c.i, j: c.j, k: c.k, m: 0 } else c
  // the operators that only Python has, on names: opcode MIX + 20 * form + operator. form 0: d = i op int, 1: d = BigInteger(int op j),
  // 2: d op= int, 3: d op= j, 4: d = i op j, 5: d = pow(i, j, k) with an int exponent (m odd) or an int modulus (m > 1)
  // ** and the shifts take the immediate as their right operand, the others the value of j
  pure val MIX = 100
  pure def byImmediate(o: int): bool = o >= POW and o <= RSH
  pure def mixStep(g: List[int], c: Call): Ev = {
    val f = (c.o - MIX) / 20
    val o = (c.o - MIX) % 20
    val x = if (f == 2 or f == 3) g[c.d] else g[c.i]
    val y = if (byImmediate(o)) c.m else g[c.j]
    val z = if (f == 5) { val p = mModpow(g[c.i], g[c.j], g[c.k]) { e: p.e, r: p.r } } else pyValue(o, x, y)
    { op: "h", a: [c.o, c.d, c.i, c.j, c.k, c.m], e: if (z.e == "") "" else "refuse",
      r: if (z.e != "") g else if (o == DIVMOD and f != 5) g.replaceAt(c.k, z.r[1]).replaceAt(c.d, z.r[0]) else g.replaceAt(c.d, z.r[0]) }
  }
  pure def mixSmall(g: List[int], c: Call): bool = {
    val f = (c.o - MIX) / 20
    val o = (c.o - MIX) % 20
    val x = bits(iabs(if (f == 2 or f == 3) g[c.d] else g[c.i]))
    val y = bits(iabs(g[c.j]))
    if (f == 5) y <= 70
    else if (o == MUL) x + y <= CAP
    else if (o == POW) x <= 1 or c.m < 0 or not(isInt32(c.m)) or x * c.m <= CAP
    else if (o == LSH) not(isInt32(c.m)) or x + c.m <= CAP
    else if (o == RSH) not(isInt32(c.m)) or x - c.m <= CAP
    else x <= CAP and y <= CAP
  }
  pure def drawMix(g: List[int], s: int): Call = {
    val f = pick(s, 600, 6)
    val o0 = pick(s, 601, LT)
    val o = if (f == 5) 0 else if ((f == 2 or f == 3) and o0 == DIVMOD) FLOORDIV else o0
    val d = pick(s, 1, R)
    val i = if (pick(s, 2, 4) == 0) d else pick(s, 3, R)
    val j = if (pick(s, 4, 4) == 0) i else pick(s, 5, R)
    val k = if (pick(s, 6, 4) == 0) d else if (pick(s, 7, 4) == 0) j else pick(s, 8, R)
    val m = if (f == 5) pick(s, 602, 4)
            else if (pick(s, 603, 20) == 0) signed(s, 604, [2147483647, 2147483648, 2147483649, 4294967296, 9223372036854775808, 18446744073709551617][pick(s, 605, 6)])
            else if (o == POW) pick(s, 602, 12) - 1
            else count(s, 30, if (f == 2 or f == 3) g[d] else g[i], o == LSH)
    { o: MIX + 20 * f + o, d: d, i: i, j: j, k: if (o == DIVMOD or f == 5) k else 0, m: m }
  }
  pure def pyStep(g: List[int], s: int): Ev = {
    val c = if (pick(s, 606, 3) == 0) drawMix(g, s) else pyCall(drawCall(g, s))
    if (c.o >= MIX) (if (mixSmall(g, c)) mixStep(g, c) else { op: "skip", a: [], e: "", r: g })
    else if (small(g, c)) after(g, c).ev else { op: "skip", a: [], e: "", r: g }
  }

  pure def lawPyop(v: Ev): bool = {
    val c = v.a[0]
    val x = v.a[2]
    val y = v.a[3]
    if (v.e != "") (c >= TRUEDIV and c <= DIVMOD and y == 0) or (c == POW and y < 0) or (c >= POW and c <= RSH and not(isInt32(y)))
    else if (c == DIVMOD) v.r[1] * y + v.r[2] == x and iabs(v.r[2]) < iabs(y) and (v.r[2] == 0 or sgn(v.r[2]) == sgn(x))
    else if (c == TRUEDIV or c == FLOORDIV) { val m = x - v.r[1] * y iabs(m) < iabs(y) and (m == 0 or sgn(m) == sgn(x)) }
    else if (c == SUB) v.r[1] + y == x
    else if (c >= LT) v.r[0] == 2 and (v.r[1] == 1) == (if (c == EQ) x == y else if (c == NE) not(x == y) else if (c == LT) not(x >= y) else if (c == LE) not(x > y) else if (c == GT) not(x <= y) else not(x < y))
    else true
  }
  pure def lawPyobj(v: Ev): bool = {
    val d = v.r[6]
    val x = v.a[0]
    and { decodeTc(v.r[1], v.r[0], 8) == x,
          // no double is nearer
          (d >= 0 and x != 0) implies and { 2 * iabs(x - fromDouble(d)) <= iabs(fromDouble(d) - fromDouble(d + 1)) or iabs(x) >= 2^1024 - 2^971, (iabs(x) < P53) implies fromDouble(d) == x } }
  }
  pure def lawPy(v: Ev): bool =
    if (v.op == "pyop") lawPyop(v) else if (v.op == "pyobj") lawPyobj(v)
    else if (v.op == "pypow") lawModpow({ op: "modpow", a: v.a.slice(1, 4), e: if (v.e == "") "" else if (v.a[2] < 0) "range" else "div0", r: v.r.slice(1, v.r.length()) })
    else true
}
