// -*- mode: Bluespec; -*-
// C12: decimal text.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C12 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import long.* from "./long"
  import giant.* from "./giant"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = NTEXT + NPARSE + 1249
  pure def table(n: int): Ev = {
    pure val o0 = 0
    pure val o1 = o0 + NTEXT
    pure val o2 = o1 + NPARSE
    if (n < o1) { val i = n - o0 sText(i) }
    else if (n < o2) { val i = n - o1 sParse(i) }
    else { val i = n - o2 mText(sword4(i)) }
  }
  pure def some(s: int): Ev = {
    val k = pick(s, 7777, 2)
    if (k < 1) gText(s) else gParse(s)
  }

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
  pure def longs(n: int): Ev = if (n < NLTEXT) lText(n) else lParse(n - NLTEXT)
  pure def giants(n: int): Ev = if (n < NXTEXT) xText(n) else xParse(n - NXTEXT)
  action long = all { at < NLTEXT + NLPARSE, ev' = longs(at), at' = at + by, by' = by }
  action giant = all { at < NXTEXT + NXPARSE, ev' = giants(at), at' = at + by, by' = by }

  val lawful = law(ev)
}
