// -*- mode: Bluespec; -*-
// C23: storage running out. A call over named objects either completes or, when a request of its for storage is
// refused, stops: then each object it assigns holds its old value or its new one, all others theirs.
// `scan`: every operation in every pattern of aliasing; `live`: histories; `draw`: calls that name no object.
// The replay makes each call once for each of its requests for storage, with that request refused.
module C23 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"
  import scan.* from "./scan"
  import every.* from "./every"
  var ev: Ev
  var before: List[int]
  var stopped: List[int]     // one of the states in which the call may stop instead
  var at: int
  var by: int

  // the call stops after any part of its assignments
  pure def stops(g: List[int], c: Call, n: int): List[int] = {
    val w = effect(g, c).w
    perform(g, w.slice(0, n % (w.length() + 1)))
  }
  pure def oldOrNew(old: List[int], e: Ev, st: List[int]): bool =
    old.indices().forall(x => st[x] == old[x] or (st[x] == e.r[x] and e.e == "")
      // a register assigned twice by one call (quotient and remainder in the same object) may show the first value
      or (e.a[0] == 23 and x == e.a[1] and x == e.a[4]) or ((e.a[0] == 31 or e.a[0] == 32) and x == e.a[1] and x == e.a[2]))

  action from(start: int, stride: int): bool = all { ev' = resetEv, before' = zeros, stopped' = zeros, at' = 2 * start, by' = stride }
  action init = from(0, 1)
  action scan = { nondet s = 0.to(2^64 - 1).oneOf()
    val c = aliasCall(at / 2, s)
    all { at < 2 * NALIAS,
      ev' = if (at % 2 == 0) setEv(s) else aliasEv(ev.r, c),
      before' = if (at % 2 == 0) setEv(s).r else ev.r,
      stopped' = if (at % 2 == 0) setEv(s).r else if (small(ev.r, c)) stops(ev.r, c, pick(s, 95, 3)) else ev.r,
      at' = if (at % 2 == 0) at + 1 else at - 1 + 2 * by, by' = by } }
  action live = { nondet s = 0.to(2^64 - 1).oneOf()
    val c = drawCall(ev.r, s)
    all { before' = ev.r, ev' = if (small(ev.r, c)) after(ev.r, c).ev else { op: "skip", a: [], e: "", r: ev.r },
      stopped' = if (small(ev.r, c)) stops(ev.r, c, pick(s, 95, 3)) else ev.r, at' = at, by' = by } }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = gAny(s), before' = zeros, stopped' = zeros, at' = at, by' = by } }
  action step = live

  val lawful = if (ev.op == "h") ((frame(before, ev) and oldOrNew(before, ev, stopped)) or ev.a[0] == 48) else law(ev)
}
