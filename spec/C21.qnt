// -*- mode: Bluespec; -*-
// C21: Python objects as immutable integers. `scan`: tables; `draw`: single objects; `live`: long histories over named objects.
module C21 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"
  import scan.* from "./scan"
  import py.* from "./py"
  var ev: Ev
  var before: List[int]
  var at: int
  var by: int

  pure val O1 = 1249
  pure val O2 = O1 + 14 * 300
  pure val O3 = O2 + NPYFROM
  pure val O4 = O3 + NPYFROM2
  pure val O5 = O4 + 1600
  pure val O6 = O5 + NLOG
  pure val O7 = O6 + NTODBL / 2
  pure val SIZE = O7 + 1
  pure def table(n: int): Ev =
    if (n < O1) mPyobj(sword4(n))
    else if (n < O2) mPyobj(near2(n - O1))
    else if (n < O3) sPyfrom(n - O2)
    else if (n < O4) sPyfrom2(n - O3)
    else if (n < O5) { val i = n - O4 mPycmp(PF[i / 40], PF[i % 40]) }
    else if (n < O6) { val v = sLog(n - O5) if (v.op == "log") mPylog(v.a[0], v.a[1]) else mPyln(v.a[0]) }
    else if (n < O7) { val v = sTodbl(2 * (n - O6)) mPyobj(v.a[0]) }
    else mPyconst
  pure def some(s: int): Ev = {
    val k = pick(s, 7777, 14)
    if (k < 4) gPyobj(s) else if (k < 7) gPyfrom(s) else if (k < 9) gPycmp(s) else if (k < 10) gPylog(s) else if (k < 13) gPyop(s) else gPypow(s)
  }

  action from(start: int, stride: int): bool = all { ev' = none, before' = zeros, at' = start, by' = stride }
  action init = from(0, 1)
  action fresh = all { ev' = resetEv, before' = zeros, at' = 0, by' = 1 }
  action scan = all { at < SIZE, ev' = table(at), before' = before, at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), before' = before, at' = at, by' = by } }
  action live = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = pyStep(ev.r, s), before' = ev.r, at' = at, by' = by } }
  action step = draw

  val lawful = lawPy(ev) and frame(before, ev)
}
