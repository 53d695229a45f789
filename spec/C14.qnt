// -*- mode: Bluespec; -*-
// C14: floating point.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C14 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import long.* from "./long"
  import giant.* from "./giant"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = NFROMDBL + NTODBL + 14 * 70 + 14 * 12
  pure def table(n: int): Ev = {
    pure val o0 = 0
    pure val o1 = o0 + NFROMDBL
    pure val o2 = o1 + NTODBL
    pure val o3 = o2 + 14 * 70
    if (n < o1) { val i = n - o0 sFromdbl(i) }
    else if (n < o2) { val i = n - o1 sTodbl(i) }
    else if (n < o3) { val i = n - o2 mTodbl(near2(i)) }
    else { val i = n - o3 mTodbl(near2(i + 14 * 1018)) }
  }
  pure def some(s: int): Ev = {
    val k = pick(s, 7777, 2)
    if (k < 1) gTodbl(s) else gFromdbl(s)
  }

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
  pure def longs(n: int): Ev = lTodbl(n)
  pure def giants(n: int): Ev = xTodbl(n)
  action long = all { at < NLDBL, ev' = longs(at), at' = at + by, by' = by }
  action giant = all { at < NXDBL, ev' = giants(at), at' = at + by, by' = by }

  val lawful = law(ev)
}
