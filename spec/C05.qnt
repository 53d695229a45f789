// -*- mode: Bluespec; -*-
// C05: integer powers.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C05 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import long.* from "./long"
  import giant.* from "./giant"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = NPOW + NPOWBIG + 249 * 12
  pure def table(n: int): Ev = {
    pure val o0 = 0
    pure val o1 = o0 + NPOW
    pure val o2 = o1 + NPOWBIG
    if (n < o1) { val i = n - o0 sPow(i) }
    else if (n < o2) { val i = n - o1 sPowBig(i) }
    else { val i = n - o2 mPow(SWORD[i / 12], i % 12) }
  }
  pure def some(s: int): Ev = gPow(s)

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
  pure def longs(n: int): Ev = lPow(n)
  pure def giants(n: int): Ev = xPow(n)
  action long = all { at < NLPOW, ev' = longs(at), at' = at + by, by' = by }
  action giant = all { at < NXPOW, ev' = giants(at), at' = at + by, by' = by }

  val lawful = law(ev)
}
