// -*- mode: Bluespec; -*-
// C13: machine integers.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C13 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import giant.* from "./giant"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = NMACH + 249
  pure def table(n: int): Ev = {
    pure val o0 = 0
    pure val o1 = o0 + NMACH
    if (n < o1) { val i = n - o0 mMachine(near2(i)) }
    else { val i = n - o1 mMachine(SWORD[i]) }
  }
  pure def some(s: int): Ev = gMachine(s)

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
  pure def giants(n: int): Ev = xMachine(n)
  action giant = all { at < NXMACH, ev' = giants(at), at' = at + by, by' = by }

  val lawful = law(ev)
}
