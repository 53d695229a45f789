// -*- mode: Bluespec; -*-
// C18: results depend on operand values only. The machine remembers its recent calls; a step makes a new call,
// repeats a remembered one, or makes one that differs from a remembered one in a single operand or in a few bits,
// so that anything the implementation keeps between calls meets an operand it was not made for.
module C18 {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"
  import scan.* from "./scan"
  import every.* from "./every"
  var ev: Ev
  var past: List[Ev]
  var at: int
  var by: int

  pure val KEEP = 8
  // the same call on other operands
  pure def again(v: Ev, a: List[int]): Ev =
    if (v.op == "addsub") mAddsub(a[0], a[1]) else if (v.op == "unary") mUnary(a[0]) else if (v.op == "mul") mMul(a[0], a[1])
    else if (v.op == "sq") mSq(a[0]) else if (v.op == "divmod") mDivmod(a[0], a[1])
    else if (v.op == "modpow") mModpow(a[0], iabs(a[1]), a[2])
    else if (v.op == "gcd") mGcd(a[0], a[1]) else if (v.op == "bit") mBit(a[0], a[1]) else if (v.op == "cmp") mCmp(a[0], a[1])
    else if (v.op == "bytes") mBytes(a[0]) else if (v.op == "text") mText(a[0]) else if (v.op == "machine") mMachine(a[0])
    else if (v.op == "todbl") mTodbl(a[0]) else if (v.op == "pred") mPred(a[0])
    else if (v.op == "pow" and bits(iabs(a[0])) * iabs(v.a[1]) < 8000) mPow(a[0], v.a[1])
    else if (v.op == "shl" and v.a[1] < 5000) mShl(a[0], v.a[1]) else if (v.op == "shr" and v.a[1] > -5000) mShr(a[0], v.a[1])
    else v
  // an operand changed a little: the sign, the low bits, a bit somewhere, the top limb; its length mostly stays
  pure def nudge(s: int, x: int): int = {
    val k = pick(s, 9200, 8)
    if (k == 0) -x else if (k == 1) x + 1 else if (k == 2) x - 1
    else if (k == 3) x + 2^runpos(s, 9201, imax(1, limbs(x)))
    else if (k == 4) x + W^imax(0, limbs(x) - 1)
    else if (k == 5) fmod(x, 2^imax(1, bits(iabs(x)) - 1)) + 2^imax(1, bits(iabs(x)))
    else twin(s, 9202, x)
  }
  pure def vary(s: int, v: Ev): Ev = {
    val n = v.a.length()
    if (n == 0) v
    else {
      val p = if (n == 1) 0 else pick(s, 9300, imin(n, 3))
      val x = nudge(s, v.a[p])
      again(v, v.a.replaceAt(p, x))
    }
  }
  pure def choose(s: int, h: List[Ev]): Ev = {
    val k = pick(s, 9000, 10)
    if (h.length() == 0 or k < 4) gAny(s)
    else {
      // often the very last call: what a single-entry memory still holds
      val v = if (pick(s, 9002, 3) == 0) h[h.length() - 1] else h[pick(s, 9001, h.length())]
      if (k < 6) v
      else if (k == 6 and v.a.length() >= 2) again(v, [v.a[1], v.a[0]].concat(v.a.slice(2, v.a.length())))
      else vary(s, v)
    }
  }
  action from(start: int, stride: int): bool = all { ev' = none, past' = [], at' = start, by' = stride }
  action init = from(0, 1)
  action draw = { nondet s = 0.to(2^64 - 1).oneOf()
    val v = choose(s, past)
    all { ev' = v, past' = (if (past.length() >= KEEP) past.slice(1, KEEP) else past).append(v), at' = at, by' = by } }
  action scan = all { at < 26 * 26 * 16, ev' = sModpow(at), past' = past, at' = at + by, by' = by }
  action step = draw

  // a remembered call has one outcome
  val lawful = law(ev) and past.indices().forall(i => (past[i].op == ev.op and past[i].a == ev.a) implies (past[i].e == ev.e and past[i].r == ev.r))
}
