// -*- mode: Bluespec; -*-
// C11: byte and limb encodings.
// A state is the last call with the outcome it must have. `scan` walks a finite table of calls completely,
// `draw` chooses any call of the property's generator.
module C11 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import scan.* from "./scan"
  import long.* from "./long"
  import giant.* from "./giant"
  var ev: Ev
  var at: int
  var by: int

  pure val SIZE = NB5 + NPAD + 1249 + 14 * 200
  pure def table(n: int): Ev = {
    pure val o0 = 0
    pure val o1 = o0 + NB5
    pure val o2 = o1 + NPAD
    pure val o3 = o2 + 1249
    if (n < o1) { val i = n - o0 sFrombytes(i) }
    else if (n < o2) { val i = n - o1 sPad(i) }
    else if (n < o3) { val i = n - o2 mBytes(sword4(i)) }
    else { val i = n - o3 mBytes(near2(i)) }
  }
  pure def some(s: int): Ev = {
    val k = pick(s, 7777, 5)
    if (k < 2) gBytes(s) else if (k < 4) gFrombytes(s) else gFromlimbs(s)
  }

  action from(start: int, stride: int): bool = all { ev' = none, at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = some(s), at' = at, by' = by } }
  action step = draw
  pure def longs(n: int): Ev = if (n < NLBYTES) lBytes(n) else lFrombytes(n - NLBYTES)
  pure def giants(n: int): Ev = if (n < NXBYTES) xBytes(n) else xFrombytes(n - NXBYTES)
  action long = all { at < NLBYTES + NLFROM, ev' = longs(at), at' = at + by, by' = by }
  action giant = all { at < NXBYTES + NXFROM, ev' = giants(at), at' = at + by, by' = by }

  val lawful = law(ev)
}
