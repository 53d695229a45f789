// -*- mode: Bluespec; -*-
// C15: logarithms.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C15 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import long.* from "./long"
  import giant.* from "./giant"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = NLOG
  pure def table(n: int): Ev = {
    pure val o0 = 0
{ val i = n - o0 sLog(i) }
  }
  pure def some(s: int): Ev = gLog(s)

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
  pure def longs(n: int): Ev = lLog(n)
  pure def giants(n: int): Ev = xLog(n)
  action long = all { at < NLLOG, ev' = longs(at), at' = at + by, by' = by }
  action giant = all { at < NXLOG, ev' = giants(at), at' = at + by, by' = by }

  val lawful = law(ev)
}
