// -*- mode: Bluespec; -*-
// C19: refusals and totality: every operation on every combination of operand shapes, then everything at random.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C19 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"
  import scan.* from "./scan"
  import every.* from "./every"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = NMOD + NPOW + NPOWBIG + NANY + NMACH + NFROMDBL / 8 + NB5 + NPARSE
  pure def table(n: int): Ev = {
    pure val o0 = 0
    pure val o1 = o0 + NMOD
    pure val o2 = o1 + NPOW
    pure val o3 = o2 + NPOWBIG
    pure val o4 = o3 + NANY
    pure val o5 = o4 + NMACH
    pure val o6 = o5 + NFROMDBL / 8
    pure val o7 = o6 + NB5
    if (n < o1) { val i = n - o0 sModpow(i) }
    else if (n < o2) { val i = n - o1 sPow(i) }
    else if (n < o3) { val i = n - o2 sPowBig(i) }
    else if (n < o4) { val i = n - o3 sAny(i) }
    else if (n < o5) { val i = n - o4 mMachine(near2(i)) }
    else if (n < o6) { val i = n - o5 sFromdbl(i * 8 + i % 8) }
    else if (n < o7) { val i = n - o6 sFrombytes(i) }
    else { val i = n - o7 sParse(i) }
  }
  pure def some(s: int): Ev = gAny(s)

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw

  val lawful = law(ev)
}
