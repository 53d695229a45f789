// -*- mode: Bluespec; -*-
// C22: storage. The objects of a program are the registers it has named; a call makes objects of its own, and they are
// gone when it ends, however it ends. `rest` destroys the named objects: nothing is held then, so whatever was done
// before can be done again from there, any number of times, without the process growing.
// `scan`, `draw`: calls that name no object; `live`: histories over registers, with rests.
module C22 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"
  import scan.* from "./scan"
  import every.* from "./every"
  var ev: Ev
  var named: List[int]       // the values of the objects that exist
  var at: int
  var by: int

  pure val SIZE = NANY / 2 + NPOW / 4 + NMOD / 8 + NB5 / 8 + NPARSE + NFROMDBL / 16 + NMACH
  pure def table(n: int): Ev = {
    pure val o1 = NANY / 2
    pure val o2 = o1 + NPOW / 4
    pure val o3 = o2 + NMOD / 8
    pure val o4 = o3 + NB5 / 8
    pure val o5 = o4 + NPARSE
    pure val o6 = o5 + NFROMDBL / 16
    if (n < o1) sAny(n * 2 + (n / 18) % 2)
    else if (n < o2) sPow((n - o1) * 4)
    else if (n < o3) sModpow((n - o2) * 8 + (n / 16) % 8)
    else if (n < o4) sFrombytes((n - o3) * 8 + n % 8)
    else if (n < o5) sParse(n - o4)
    else if (n < o6) sFromdbl((n - o5) * 16 + n % 16)
    else mMachine(near2(n - o6))
  }

  action from(start: int, stride: int): bool = all { ev' = none, named' = [], at' = start, by' = stride }
  action init = from(0, 1)
  action scan = all { at < SIZE, ev' = table(at), named' = [], at' = at + by, by' = by }
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    all { ev' = gAny(s), named' = [], at' = at, by' = by } }
  action fresh = all { ev' = resetEv, named' = zeros, at' = 0, by' = 1 }
  // now and then all objects are destroyed and others made in their place
  action live = { nondet s = 0.to(2^64 - 1).oneOf()
    val c = drawCall(named, s)
    val z = if (pick(s, 90, 40) == 0) { g: zeros, ev: resetEv }
            else if (small(named, c)) after(named, c) else { g: named, ev: { op: "skip", a: [], e: "", r: named } }
    all { ev' = z.ev, named' = z.g, at' = at, by' = by } }
  action step = draw

  // what exists after a call is what the program named, with the values the call left in it
  val lawful = law(ev) and (ev.op == "h" implies named == ev.r) and (named.length() > 0 implies named.length() == R)
}
