// -*- mode: Bluespec; -*-
// A register file of BigInteger objects and every public operation on it, with every possible aliasing of
// destination and operands. The step function is the meaning of one call: which register is assigned what,
// or which exception leaves all of them alone.
module history {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"

  pure val R = 5
  pure val CAP = 2200                       // bits; a longer result is not generated

  // opcode, and the registers and immediate it is given
  type Call = { o: int, d: int, i: int, j: int, k: int, m: int }
  // e: refusal; w: writes, as (register, value) in order of assignment
  type Res = { e: str, w: List[{ x: int, v: int }] }

  pure def one(x: int, v: int): Res = { e: "", w: [{ x: x, v: v }] }
  pure def refuse(e: str): Res = { e: e, w: [] }
  pure val nothing: Res = { e: "", w: [] }

  pure val LOAD = 0       pure val COPY = 1
  pure val RESET = 45
  pure def binop(o: int, a: int, b: int, d: int): Res =
    if (o == 0) one(d, a + b) else if (o == 1) one(d, a - b) else if (o == 2) one(d, a * b)
    else if (o == 3) (if (b == 0) refuse("div0") else one(d, tdiv(a, b)))
    else if (o == 4) (if (b == 0) refuse("div0") else one(d, trem(a, b)))
    else if (o == 5) one(d, band(a, b)) else if (o == 6) one(d, bor(a, b)) else one(d, bxor(a, b))

  pure def effect(g: List[int], c: Call): Res = {
    val d = g[c.d]   val i = g[c.i]   val j = g[c.j]   val k = g[c.k]
    val o = c.o
    if (o == LOAD) one(c.d, c.m)
    else if (o == COPY) one(c.d, i)
    else if (o < 10) binop(o - 2, i, j, c.d)                                     // d = i op j
    else if (o < 18) binop(o - 10, d, j, c.d)                                    // d op= j
    else if (o < 23) binop(o - 18, i, j, c.d)                                    // d = add(i, j) ...
    else if (o == 23) (if (j == 0) refuse("div0") else { e: "", w: [{ x: c.k, v: trem(i, j) }, { x: c.d, v: tdiv(i, j) }] })
    else if (o < 26) one(c.d, -i)
    else if (o == 26) one(c.d, i)
    else if (o == 27) one(c.d, iabs(i))
    else if (o == 28) one(c.d, bnot(i))
    else if (o == 29) one(c.d, d + 1)
    else if (o == 30) one(c.d, d - 1)
    else if (o == 31) { e: "", w: [{ x: c.i, v: i + 1 }, { x: c.d, v: i }] }     // d = i++
    else if (o == 32) { e: "", w: [{ x: c.i, v: i - 1 }, { x: c.d, v: i }] }
    else if (o == 33) one(c.d, shl(i, c.m))
    else if (o == 34) one(c.d, shr(i, c.m))
    else if (o == 35) one(c.d, shl(d, c.m))
    else if (o == 36) one(c.d, shr(d, c.m))
    else if (o == 37) (val p = mPow(i, c.m) if (p.e != "") refuse(p.e) else one(c.d, p.r[0]))
    else if (o == 38) (val p = mModpow(i, j, k) if (p.e != "") refuse(p.e) else one(c.d, p.r[0]))
    else if (o == 39) one(c.d, gcd(i, j))
    else if (o == 40) one(c.d, i)                                                // parse(to_string)
    else if (o == 41) (if (c.m >= 2 and i < 0) refuse("runtime") else one(c.d, i))
    else if (o == 42) nothing                                                    // every observer
    else if (o == 43) (if (fits(i, I64MIN, I64MAX) == 1) one(c.d, i) else refuse("overflow"))
    else if (o == 44) (if (i < 0) refuse("runtime") else one(c.d, i))
    else if (o == 46) one(c.d, i)                                                // try_parse into d
    else one(c.d, d)                                                             // self-assignment
  }
  // calls whose result would not fit the bound of this model are not made
  pure def small(g: List[int], c: Call): bool = {
    val o = c.o
    val bi = bits(iabs(g[c.i]))
    val bj = bits(iabs(g[c.j]))
    val bd = bits(iabs(g[c.d]))
    if (o == 4 or o == 20) bi + bj <= CAP
    else if (o == 12) bd + bj <= CAP
    else if (o == 33) bi + imax(0, c.m) <= CAP else if (o == 34) bi + imax(0, -c.m) <= CAP
    else if (o == 35) bd + imax(0, c.m) <= CAP else if (o == 36) bd + imax(0, -c.m) <= CAP
    else if (o == 37) (bi <= 1 or bi * c.m <= CAP)
    else if (o == 38) bj <= 70
    else if (bi > CAP or bj > CAP or bd > CAP) o == 0 or o == 1
    else true
  }
  pure def perform(g: List[int], w: List[{ x: int, v: int }]): List[int] = w.foldl(g, (acc, z) => acc.replaceAt(z.x, z.v))
  pure def after(g: List[int], c: Call): { g: List[int], ev: Ev } = {
    val z = effect(g, c)
    val n = perform(g, z.w)
    { g: n, ev: { op: "h", a: [c.o, c.d, c.i, c.j, c.k, c.m], e: z.e, r: n } }
  }

  pure val OPS = [0, 0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 10, 10, 11, 11, 12, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22,
    23, 23, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 34, 35, 36, 36, 37, 38, 38, 39, 40, 41, 42, 43, 44, 46, 47]
  pure def drawCall(g: List[int], s: int): Call = {
    val o = if (g[pick(s, 41, R)] == 0 and coin(s, 42)) LOAD else OPS[pick(s, 0, OPS.length())]
    val d = pick(s, 1, R)
    val i = if (pick(s, 2, 4) == 0) d else pick(s, 3, R)
    val j = if (pick(s, 4, 4) == 0) i else pick(s, 5, R)
    val k = if (pick(s, 6, 4) == 0) d else if (pick(s, 7, 4) == 0) j else pick(s, 8, R)
    val m = if (o == 0) (if (coin(s, 9)) related(s, 300, g[i], 12) else operand(s, 10, [3, 6, 12, 40][pick(s, 20, 4)]))
            else if (o == 33 or o == 35) count(s, 30, g[if (o == 33) i else d], true)
            else if (o == 34 or o == 36) count(s, 30, g[if (o == 34) i else d], false)
            else if (o == 37) pick(s, 30, 12) - 1
            else if (o == 41) pick(s, 30, 4) else 0
    { o: o, d: d, i: i, j: j, k: k, m: m }
  }
  pure def zeros: List[int] = range(0, R).foldl([], (acc, i) => acc.append(0))
  pure val resetEv: Ev = { op: "h", a: [RESET, 0, 0, 0, 0, 0], e: "", r: zeros }

  // what a step may change, independently of `effect`'s cases
  pure def frame(before: List[int], ev: Ev): bool =
    ev.op == "h" implies and {
      ev.e != "" implies before == ev.r,
      before.indices().forall(x => before[x] == ev.r[x] or x == ev.a[1]
        or ((ev.a[0] == 23 or (ev.a[0] >= 100 and (ev.a[0] - 100) % 20 == 6)) and x == ev.a[4]) or ((ev.a[0] == 31 or ev.a[0] == 32) and x == ev.a[2]) or ev.a[0] == RESET) }
}
