// -*- mode: Bluespec; -*-
// C20: Python operators, for every mix of BigInteger and int. `scan`: every operator and form on every pair of a table; `draw`: any.
module C20 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import py.* from "./py"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = NPYOPS + NPYPOW + 1249
  pure def table(n: int): Ev =
    if (n < NPYOPS) sPyop(n)
    else if (n < NPYOPS + NPYPOW) sPypow(n - NPYOPS)
    else mPyun(sword4(n - NPYOPS - NPYPOW))
  pure def some(s: int): Ev = {
    val k = pick(s, 7777, 12)
    if (k < 10) gPyop(s) else if (k == 10) gPypow(s) else mPyun(operand(s, 0, 40))
  }

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw

  val lawful = lawPy(ev)
}
