// -*- mode: Bluespec; -*-
// C08: shifts.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C08 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import long.* from "./long"
  import giant.* from "./giant"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = 249 * SHIFTS
  pure def table(n: int): Ev = {
    pure val o0 = 0
{ val i = n - o0 sShift(i) }
  }
  pure def some(s: int): Ev = gShift(s)

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
  pure def longs(n: int): Ev = lShift(n)
  pure def giants(n: int): Ev = xShift(n)
  action huge = all { at < 6, ev' = sHuge(at), at' = at + by, by' = by }
  action long = all { at < NLSHIFT, ev' = longs(at), at' = at + by, by' = by }
  action giant = all { at < NXSHIFT, ev' = giants(at), at' = at + by, by' = by }

  val lawful = law(ev)
}
