// -*- mode: Bluespec; -*-
// C01: canonical values. `scan`: every value of up to four limbs, and neighbours of powers of two, by every
// construction route. `draw`: the register machine; every object after every call is canonical and agrees in every
// observer with a freshly made object of the same value.
module C01 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"
  var ev: Ev
  var before: List[int]
  var at: int
  var by: int

  pure val SIZE = 1249 + 14 * 140 + 14 * 12
  pure def table(n: int): Ev =
    if (n < 1249) mCanon(sword4(n)) else if (n < 1249 + 14 * 140) mCanon(near2(n - 1249)) else mCanon(near2(n - 1249 - 14 * 140 + 14 * 1018))

  action from(start: int, stride: int): bool = all { ev' = resetEv, before' = zeros, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), before' = zeros, at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    val c = drawCall(ev.r, s)
    all { before' = ev.r, ev' = if (small(ev.r, c)) after(ev.r, c).ev else { op: "skip", a: [], e: "", r: ev.r }, at' = at, by' = by } }
  action make = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = gCanon(s), before' = zeros, at' = at, by' = by } }
  action step = draw

  val lawful = frame(before, ev)
}
