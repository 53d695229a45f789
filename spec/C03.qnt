// -*- mode: Bluespec; -*-
// C03: multiplication and squaring.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C03 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import long.* from "./long"
  import giant.* from "./giant"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = 15625 + 8 * 160 + NSIZEPAIRS
  pure def table(n: int): Ev = {
    pure val o0 = 0
    pure val o1 = o0 + 15625
    pure val o2 = o1 + 8 * 160
    if (n < o1) { val i = n - o0 mMul(word(i / 125), -word(i % 125)) }
    else if (n < o2) { val i = n - o1 mSq(shape(i % 8, i / 8 + 1)) }
    else { val i = n - o2 mMul(bigA(i), bigB(i)) }
  }
  pure def some(s: int): Ev = {
    val k = pick(s, 7777, 4)
    if (k < 3) gMul(s) else gSq(s)
  }

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
  pure def longs(n: int): Ev = if (n < NLMUL) lMul(n) else lSq(n - NLMUL)
  pure def giants(n: int): Ev = if (n < NXMUL) xMul(n) else xSq(n - NXMUL)
  action long = all { at < NLMUL + NLSQ, ev' = longs(at), at' = at + by, by' = by }
  action giant = all { at < NXMUL + NXSQ, ev' = giants(at), at' = at + by, by' = by }

  val lawful = law(ev)
}
