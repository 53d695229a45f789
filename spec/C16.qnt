// -*- mode: Bluespec; -*-
// C16: predicates and sizes.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C16 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import long.* from "./long"
  import giant.* from "./giant"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = NPRED + 1249 + 14 * 200 + 1
  pure def table(n: int): Ev = {
    pure val o0 = 0
    pure val o1 = o0 + NPRED
    pure val o2 = o1 + 1249
    pure val o3 = o2 + 14 * 200
    if (n < o1) { val i = n - o0 sPred(i) }
    else if (n < o2) { val i = n - o1 mPred(sword4(i)) }
    else if (n < o3) { val i = n - o2 mPred(near2(i)) }
    else { val i = n - o3 mConsts }
  }
  pure def some(s: int): Ev = gPred(s)

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
  pure def longs(n: int): Ev = lPred(n)
  pure def giants(n: int): Ev = xPred(n)
  action long = all { at < NLPRED, ev' = longs(at), at' = at + by, by' = by }
  action giant = all { at < NXPRED, ev' = giants(at), at' = at + by, by' = by }

  val lawful = law(ev)
}
