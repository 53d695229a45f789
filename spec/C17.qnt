// -*- mode: Bluespec; -*-
// C17: what a call may change. `scan`: every operation in every pattern of aliasing among four objects, from
// chosen values. `draw`: long histories of the register machine.
module C17 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"
  import scan.* from "./scan"
  var ev: Ev
  var before: List[int]
  var at: int
  var by: int

  action from(start: int, stride: int): bool = all { ev' = resetEv, before' = zeros, at' = 2 * start, by' = stride }
  action init = from(0, 1)
  // an even position sets the four objects, the odd one after it makes the call
  action scan = { nondet s = 0.to(2^64 - 1).oneOf()
    all { at < 2 * NALIAS,
      ev' = if (at % 2 == 0) setEv(s) else aliasEv(ev.r, aliasCall(at / 2, s)),
      before' = if (at % 2 == 0) setEv(s).r else ev.r, at' = if (at % 2 == 0) at + 1 else at - 1 + 2 * by, by' = by } }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    val c = drawCall(ev.r, s)
    all { before' = ev.r, ev' = if (small(ev.r, c)) after(ev.r, c).ev else { op: "skip", a: [], e: "", r: ev.r }, at' = at, by' = by } }
  action step = draw

  val lawful = frame(before, ev) or (ev.op == "h" and ev.a[0] == 48)
}
