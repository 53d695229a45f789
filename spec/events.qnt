// One step of the specification = one public call (in all its forms), with the outcome it must have.
// `e` is "" for a result, or the kind of refusal; `r` is the complete observable result.
module events {
  import semantics.* from "./semantics"
  import gen.* from "./gen"

  type Ev = { op: str, a: List[int], e: str, r: List[int] }
  pure val none: Ev = { op: "init", a: [], e: "", r: [] }

  // ------------------------------------------------------------------ what each call yields
  pure def mAddsub(a: int, b: int): Ev = { op: "addsub", a: [a, b], e: "", r: [a + b, a - b, b - a] }
  pure def mUnary(a: int): Ev = { op: "unary", a: [a], e: "", r: [-a, iabs(a), a + 1, a - 1, bnot(a)] }
  pure def mMul(a: int, b: int): Ev = { op: "mul", a: [a, b], e: "", r: [a * b] }
  pure def mSq(a: int): Ev = { op: "sq", a: [a], e: "", r: [a * a] }
  pure def mDivmod(a: int, b: int): Ev =
    if (b == 0) { op: "divmod", a: [a, b], e: "div0", r: [] }
    else { op: "divmod", a: [a, b], e: "", r: [tdiv(a, b), trem(a, b)] }
  // 2^36 bits and more: more limbs than an int can count
  pure def tooLarge(v: int, n: int): bool = iabs(v) > 1 and (bits(iabs(v)) - 1) * n >= 68719476736
  pure def mPow(v: int, n: int): Ev =
    if (n < 0) { op: "pow", a: [v, n], e: "range", r: [] }
    else if (iabs(v) <= 1) { op: "pow", a: [v, n], e: "", r: [if (n == 0) 1 else if (v < 0 and n % 2 == 0) 1 else v] }
    else if (tooLarge(v, n)) { op: "pow", a: [v, n], e: "overflow", r: [] }
    else { op: "pow", a: [v, n], e: "", r: [v^n] }
  pure def mModpow(v: int, x: int, m: int): Ev =
    if (x < 0) { op: "modpow", a: [v, x, m], e: "range", r: [] }
    else if (m == 0) { op: "modpow", a: [v, x, m], e: "div0", r: [] }
    else { op: "modpow", a: [v, x, m], e: "", r: [modpow(v, x, m)] }
  pure def mGcd(a: int, b: int): Ev = { op: "gcd", a: [a, b], e: "", r: [gcd(a, b)] }
  pure def mShl(a: int, n: int): Ev = { op: "shl", a: [a, n], e: "", r: [shl(a, n)] }
  pure def mShr(a: int, n: int): Ev = { op: "shr", a: [a, n], e: "", r: [shr(a, n)] }
  pure def mBit(a: int, b: int): Ev = {
    val x = band(a, b)
    { op: "bit", a: [a, b], e: "", r: [x, a + b - x, a + b - 2 * x, bnot(a)] }
  }
  pure def mCmp(a: int, b: int): Ev = { op: "cmp", a: [a, b], e: "", r: [sgn(a - b)] }
  pure def mBytes(a: int): Ev = {
    val n = tcLen(a, 8)
    val u = tc(a, 8)
    val m = if (a < 0) 0 else usLen(a, 8)
    { op: "bytes", a: [a], e: "", r: [n, u, swapBytes(u, n), m, imax(a, 0), swapBytes(imax(a, 0), m), tcLen(a, 32), tc(a, 32)] }
  }
  // the driver is given the word with its least significant byte first, and reverses it for big endian
  pure def mFrombytes(u: int, n: int, us: bool, be: bool): Ev = {
    op: "frombytes", a: [u, n, b2i(us), b2i(be)], e: "", r: [if (us) u else decodeTc(u, n, 8)] }
  pure def mFromlimbs(u: int, n: int, neg: bool): Ev = {
    op: "fromlimbs", a: [u, n, b2i(neg)], e: "", r: [if (neg) -u else u] }
  pure def mText(a: int): Ev = { op: "text", a: [a], e: "", r: groups(a) }
  pure def mParse(sf: int, zeros: int, sfx: int, v: int): Ev = {
    op: "parse", a: [sf, zeros, sfx].concat(groups(v)), e: "", r: [if (sf == 2) -v else v] }
  // no digit at all: a sign or nothing, then whatever the suffix is (two of them begin with a sign, which would be read as one)
  pure def mParseNone(sf: int, sfx: int): Ev = { op: "parse", a: [if (sfx == 7 or sfx == 16) 1 + sf / 2 else sf, 0, sfx], e: "", r: [0] }
  pure def fits(a: int, lo: int, hi: int): int = b2i(lo <= a and a <= hi)
  pure def mMachine(a: int): Ev = { op: "machine", a: [a], e: "",
    r: [fits(a, I32MIN, I32MAX), fits(a, 0, U32MAX), fits(a, I64MIN, I64MAX), fits(a, 0, U64MAX)] }
  pure def mTodbl(a: int): Ev = { op: "todbl", a: [a], e: "", r: [toDouble(a), toFloat(a)] }
  pure def mFromdbl(d: int): Ev = {
    val fin = dblFinite(d)
    { op: "fromdbl", a: [d], e: if (fin) "" else "overflow",
      r: [if (fin) fromDouble(d) else 0, b2i(fin), b2i(dblIsInf(d)), b2i(dblIsNaN(d))] }
  }
  pure def mLog(v: int, d: int): Ev = { val z = logOf(v, d) { op: "log", a: [v, d], e: "", r: [z.kind, z.fp] } }
  pure def mLn(v: int): Ev = {
    val x = logOf(v, E64)
    val y = logOf(v, TEN64)
    { op: "ln", a: [v], e: "", r: [x.kind, x.fp, y.kind, y.fp] }
  }
  pure def mPred(a: int): Ev = { op: "pred", a: [a], e: "",
    r: [b2i(iabs(a) % 2 == 0), b2i(a == 1), b2i(a == 0), b2i(isPow2(a)), sgn(a), bitLength(a)] }
  pure def mCanon(a: int): Ev = { op: "canon", a: [a], e: "", r: [tcLen(a, 8), tc(a, 8), bitLength(a), toDouble(a)].concat(groups(a)) }
  pure val mConsts: Ev = { op: "consts", a: [], e: "", r: [0, 0, 1, -1] }

  // ------------------------------------------------------------------ laws: what results mean, independently of how
  // the definitions above compute them. Checked by the simulator in every state.
  pure def lawAddsub(v: Ev): bool = v.r[0] - v.a[1] == v.a[0] and v.r[1] + v.a[1] == v.a[0] and v.r[1] + v.r[2] == 0
  pure def lawUnary(v: Ev): bool = v.r[0] + v.a[0] == 0 and v.r[1] >= 0 and (v.r[1] == v.a[0] or v.r[1] == v.r[0])
    and v.r[2] - v.r[3] == 2 and v.r[4] + v.r[2] == 0
  pure def lawDivmod(v: Ev): bool =
    if (v.a[1] == 0) v.e == "div0"
    else and { v.a[0] == v.r[0] * v.a[1] + v.r[1], iabs(v.r[1]) < iabs(v.a[1]), v.r[1] == 0 or sgn(v.r[1]) == sgn(v.a[0]) }
  pure def lawPow(v: Ev): bool =
    if (v.a[1] < 0) v.e == "range"
    else if (tooLarge(v.a[0], v.a[1])) v.e == "overflow"
    else and { v.a[1] == 0 implies v.r[0] == 1, v.r[0] < 0 implies v.a[0] < 0 and v.a[1] % 2 == 1,
               v.a[1] > 0 and v.a[0] != 0 implies iabs(v.r[0]) % iabs(v.a[0]) == 0 }
  pure def lawModpow(v: Ev): bool =
    if (v.a[1] < 0) v.e == "range" else if (v.a[2] == 0) v.e == "div0"
    else and { iabs(v.r[0]) < iabs(v.a[2]), v.r[0] > 0 implies v.a[0] > 0 or v.a[1] % 2 == 0, v.r[0] < 0 implies v.a[0] < 0 and v.a[1] % 2 == 1,
               (v.a[1] <= 8 and v.a[0] != 0) implies trem(v.a[0]^v.a[1], v.a[2]) == v.r[0] }
  pure def lawGcd(v: Ev): bool = {
    val g = v.r[0]
    and { g >= 0, g == 0 iff (v.a[0] == 0 and v.a[1] == 0),
          g > 0 implies and { iabs(v.a[0]) % g == 0, iabs(v.a[1]) % g == 0, gcd(v.a[1], v.a[0]) == g } }
  }
  // a >> n is the integer r with r * 2^n <= a < (r + 1) * 2^n
  pure def lawShift(v: Ev): bool = {
    val n = if (v.op == "shl") v.a[1] else -v.a[1]
    val r = v.r[0]
    if (n >= 0) r == v.a[0] * 2^n
    else if (-n > bits(iabs(v.a[0]))) (r == 0 and v.a[0] >= 0) or (r == -1 and v.a[0] < 0)
    else r * 2^(-n) <= v.a[0] and v.a[0] < (r + 1) * 2^(-n)
  }
  pure def lawBit(v: Ev): bool = {
    val a = v.a[0]
    val b = v.a[1]
    and { v.r[0] + v.r[2] == v.r[1], v.r[0] + v.r[1] == a + b, v.r[3] == -a - 1,
          (v.r[0] < 0) == (a < 0 and b < 0), (v.r[1] < 0) == (a < 0 or b < 0),
          limbs(a) > 9000 or and {
            bnot(band(bnot(a), bnot(b))) == v.r[1],                                       // De Morgan
            band(v.r[0], a) == v.r[0], band(v.r[0], v.r[2]) == 0, bxor(v.r[2], b) == a } }
  }
  pure def lawBytes(v: Ev): bool = {
    val a = v.a[0]
    val n = v.r[0]
    and { decodeTc(v.r[1], n, 8) == a, v.r[1] < 2^(8 * n), swapBytes(v.r[2], n) == v.r[1],
          n > 1 implies a < -(2^(8 * n - 9)) or a >= 2^(8 * n - 9),                     // no shorter encoding
          decodeTc(v.r[7], v.r[6], 32) == a, a >= 0 implies v.r[4] == a and a < 2^(8 * v.r[3]),
          a > 0 implies a >= 2^(8 * v.r[3] - 8) }
  }
  pure def lawText(v: Ev): bool =
    range(0, v.r.length()).foldl(0, (acc, i) => acc * E9 + v.r[v.r.length() - 1 - i]) == iabs(v.a[0])
      and v.r.indices().forall(i => v.r[i] < E9) and (v.r.length() > 1 implies v.r[v.r.length() - 1] > 0)
  pure def lawTodbl(v: Ev): bool = {
    val d = v.r[0]
    if (dblIsInf(d)) iabs(v.a[0]) >= 2^1024
    else { val x = fromDouble(d) and { sgn(x) == sgn(v.a[0]), iabs(x) <= iabs(v.a[0]), (iabs(v.a[0]) - iabs(x)) * P52 < iabs(v.a[0]) or v.a[0] == 0 } }
  }
  pure def lawPred(v: Ev): bool = {
    val n = v.r[5]
    and { -(2^n) <= v.a[0], v.a[0] < 2^n, n > 0 implies v.a[0] < -(2^(n - 1)) or v.a[0] >= 2^(n - 1), v.r[3] == 1 implies v.a[0] > 0 }
  }
  pure def law(v: Ev): bool =
    if (v.op == "addsub") lawAddsub(v) else if (v.op == "unary") lawUnary(v) else if (v.op == "divmod") lawDivmod(v)
    else if (v.op == "pow") lawPow(v) else if (v.op == "modpow") lawModpow(v) else if (v.op == "gcd") lawGcd(v)
    else if (v.op == "shl" or v.op == "shr") lawShift(v) else if (v.op == "bit") lawBit(v) else if (v.op == "bytes") lawBytes(v)
    else if (v.op == "text") lawText(v) else if (v.op == "todbl") lawTodbl(v) else if (v.op == "pred") lawPred(v) else if (v.op == "hugeshift") lawHuge(v)
    else true

  // ------------------------------------------------------------------ drawing calls
  // long operands now and then: past the second length threshold of the multiplication
  pure def wide(s: int, i: int): int =
    if (pick(s, i, 12) == 0) signed(s, i + 1, nat(s, i + 2, 100 + pick(s, i + 3, 180))) else operand(s, i + 1, 96)

  pure def gAddsub(s: int): Ev = { val a = operand(s, 0, 70) mAddsub(a, related(s, 300, a, 70)) }
  pure def gUnary(s: int): Ev = mUnary(operand(s, 0, 40))
  pure def gMul(s: int): Ev = { val a = wide(s, 0) mMul(a, if (pick(s, 290, 3) == 0) wide(s, 300) else related(s, 300, a, 96)) }
  pure def gSq(s: int): Ev = mSq(wide(s, 0))
  // dividends made around a multiple of the divisor, and around quotient digits that are guessed too high
  pure def gDivmod(s: int): Ev = {
    val k = pick(s, 0, 8)
    if (k < 2) { val a = operand(s, 10, 70) mDivmod(a, related(s, 300, a, 40)) }
    else {
      val lb = len(s, 5, 34)
      val lq = len(s, 8, 34)
      val b = imax(1, nat(s, 100, lb))
      val q = nat(s, 200, lq)
      val j = pick(s, 1, 6)
      val r = if (j == 0) 0 else if (j == 1) b - 1 else if (j == 2) imin(1, b - 1) else if (j == 3) imax(0, b - 1 - pick(s, 2, 5)) else nat(s, 300, lb) % b
      if (k < 5) mDivmod(signed(s, 3, q * b + r), signed(s, 4, b))
      else {
        // divisor bh*W^n + bl; dividend q*bh*W^n + t with t a little less than q*bl: the top limbs promise q
        val n = 1 + pick(s, 400, 3)
        val tl = if (coin(s, 408)) 2 + pick(s, 409, 3) else 1
        val bh = imax(2147483648, (if (coin(s, 401)) 2147483648 else if (coin(s, 402)) U32MAX else nat(s, 403, 1)) * W^(tl - 1) + (if (coin(s, 404)) 0 else nat(s, 405, tl) % W^(tl - 1))) 
        val sh = if (coin(s, 406)) 0 else pick(s, 407, 32)
        val bhs = imax(1, bh / 2^sh)
        val bl = if (coin(s, 410)) W^n - 1 - pick(s, 411, 3) else nat(s, 450, n) % W^n
        val bb = bhs * W^n + bl
        val qq = if (coin(s, 420)) W - 1 - pick(s, 421, 4) else imax(1, nat(s, 500, 1 + pick(s, 422, 3)))
        val t = if (bl == 0) 0 else imax(0, qq * bl - 1 - pick(s, 423, 3) * (if (coin(s, 424)) 1 else bl / 7))
        mDivmod(signed(s, 3, qq * bhs * W^n + t), signed(s, 4, bb))
      }
    }
  }
  pure def gPow(s: int): Ev = {
    val k = pick(s, 0, 10)
    if (k == 0) mPow(pick(s, 1, 3) - 1, [0, 1, 2, 3, 2147483646, 2147483647, -1, -2147483648, 1000, 4097][pick(s, 2, 10)])
    else if (k == 1) mPow(operand(s, 10, 20), pick(s, 1, 5) - 2)
    else {
      val v = if (k < 5) signed(s, 4, 2 + pick(s, 5, [9, 100, 65536, 2147483647][pick(s, 6, 4)])) else operand(s, 10, [2, 3, 8, 34][pick(s, 7, 4)])
      val cap = imax(1, [700, 2100, 6300][pick(s, 8, 3)] / imax(1, bits(iabs(v))))
      mPow(v, if (iabs(v) <= 1) pick(s, 9, 70000) else if (coin(s, 3)) pick(s, 9, cap + 1) else imin(cap, 2^(pick(s, 9, bits(cap) + 1)) - pick(s, 2, 2)))
    }
  }
  pure val MODLENS = [1, 1, 2, 2, 3, 4, 5, 8, 16, 30, 31, 32, 32, 33, 33, 34, 40, 64]
  pure def gModpow(s: int): Ev = {
    val k = pick(s, 0, 20)
    val ml = MODLENS[pick(s, 1, MODLENS.length())]
    val mk = pick(s, 2, 8)
    val m = if (mk == 0) edge(s, 3) else if (mk == 1) 1 + pick(s, 3, 2147483647) else if (mk == 2) W^(ml - 1) * (1 + pick(s, 3, 2)) else nat(s, 100, ml)
    val vl = pick(s, 4, 6)
    val v = if (vl == 0) operand(s, 200, 4) else if (vl == 1) signed(s, 8, m * (1 + pick(s, 9, 3)) + pick(s, 10, 3) - 1)
            else if (vl == 2) signed(s, 8, nat(s, 200, 2 * limbs(m) + 1)) else if (vl == 3) signed(s, 8, W^(limbs(m)) - 1 - pick(s, 9, 3)) else operand(s, 200, imin(70, limbs(m) + 2))
    val xk = pick(s, 5, 8)
    val xl = if (limbs(m) > 20) 2 else 4
    val x = if (xk == 0) pick(s, 6, 5) else if (xk < 3) pick(s, 6, 70000) else if (xk == 3) 2^(pick(s, 6, xl * 32)) - pick(s, 7, 2)
            else if (xk == 4) edge(s, 6) % W^xl else iabs(nat(s, 300, 1 + pick(s, 6, xl)))
    mModpow(v, if (k == 0) -x else x, if (k == 1) 0 else signed(s, 11, m))
  }
  // neighbours in a chain of remainders with chosen quotients: the longest runs of Euclid's algorithm
  pure def chain(s: int, n: int, big: int): { x: int, y: int, r: int } =
    range(0, n).foldl({ x: 1 + pick(s, 1, 3), y: pick(s, 2, 2), r: mix(s, 3) }, (acc, i) => {
      val q = if (acc.r % 16 < 12) 1 + acc.r % 2 else if (acc.r % 16 < 15) 1 + acc.r % 7 else 1 + acc.r % big
      { x: q * acc.x + acc.y, y: acc.x, r: if (i % 10 == 9) mix(s, 10 + i) else acc.r / 16 } })
  pure def gGcd(s: int): Ev = {
    val k = pick(s, 0, 8)
    if (k < 2) { val a = operand(s, 10, 20) mGcd(a, related(s, 300, a, 20)) }
    else if (k < 5) {
      val z = chain(s, 5 + pick(s, 4, 240), [100, 65536, W, W * W][pick(s, 5, 4)])
      val g = if (k < 4) 1 else imax(1, nat(s, 100, 1 + pick(s, 6, 4)))
      mGcd(signed(s, 7, z.x * g), signed(s, 8, z.y * g))
    } else {
      val g = imax(1, nat(s, 100, 1 + pick(s, 1, 6)))
      val x = nat(s, 200, 1 + pick(s, 2, 8))
      val y = if (k == 5) nat(s, 300, 1 + pick(s, 3, 24)) else nat(s, 300, 1 + pick(s, 3, 8))
      if (k < 7) mGcd(signed(s, 7, x * g), signed(s, 8, y * g)) else mGcd(signed(s, 7, x * g + pick(s, 9, 3)), signed(s, 8, y))
    }
  }
  pure def count(s: int, i: int, a: int, left: bool): int = {
    val k = pick(s, i, 8)
    val l = limbs(a)
    if (k == 0) pick(s, i + 1, 70)
    else if (k < 4) 32 * pick(s, i + 1, l + 3) + (if (coin(s, i + 2)) 0 else pick(s, i + 3, 3) - 1)
    else if (k == 4) bits(iabs(a)) + pick(s, i + 1, 5) - 2
    else if (k == 5) pick(s, i + 1, 32 * l + 70)
    else if (k == 6) -(pick(s, i + 1, 200))
    else if (left) pick(s, i + 1, 1200) else [1024, 4096, 65536, 1048576, 2147483647, 2147483646, 2147483616, 16777216][pick(s, i + 1, 8)]
  }
  pure def gShift(s: int): Ev = {
    val a = operand(s, 10, [3, 6, 12, 40][pick(s, 1, 4)])
    val k = pick(s, 0, 40)
    if (k == 0) mShl(a, -2147483648)
    else if (k == 1) mShl(a, -2147483647 + pick(s, 2, 40))
    else if (k < 20) mShl(a, count(s, 3, a, true)) else mShr(a, count(s, 3, a, false))
  }
  // results of 2^31 bits and about: the value v * 2^n is written as a top part and a number of zero limbs below it
  pure def parted(v: int, n: int): List[int] = if (n >= 0) [v * 2^(n % 32), n / 32] else [shl(v, n), 0]
  pure def mHuge(v: int, n: int, m: int): Ev = {
    op: "hugeshift", a: [v, n, m], e: "", r: parted(v, n).concat(parted(v, n - m)).append(bitLength(v) + n) }
  pure val HUGE = [[-3, 2147483646, 5], [-1, 2147483647, 2147483647], [7, 2147483647, 2147483646], [-(2^64) + 1, 2147483583, 1], [-5, 2147483647, 64], [-1, 2147483616, 2147483585]]
  pure def sHuge(i: int): Ev = mHuge(HUGE[i][0], HUGE[i][1], HUGE[i][2])
  pure def lawHuge(v: Ev): bool = and { v.r[0] * 2^(32 * v.r[1] - v.a[1] + 64) == v.a[0] * 2^64,
    v.a[1] >= v.a[2] implies v.r[2] * 2^(32 * v.r[3] - v.a[1] + v.a[2] + 64) == v.a[0] * 2^64,
    v.a[1] < v.a[2] implies v.r[3] == 0 and v.r[2] == fdiv(v.a[0], 2^(v.a[2] - v.a[1])) }
  pure def gBit(s: int): Ev = { val a = operand(s, 0, [3, 6, 12, 36][pick(s, 1, 4)]) mBit(a, related(s, 300, a, [3, 6, 12, 36][pick(s, 2, 4)])) }
  pure def gCmp(s: int): Ev = { val a = operand(s, 0, 40) mCmp(a, related(s, 300, a, 40)) }
  pure def gBytes(s: int): Ev = mBytes(operand(s, 0, [2, 3, 5, 12, 36][pick(s, 1, 5)]))
  pure def byteword(s: int): { u: int, n: int } = {
    val k = pick(s, 0, 6)
    if (k < 3) { // the encoding of a value with redundant sign bytes
      val a = operand(s, 10, [2, 3, 5, 12][pick(s, 1, 4)])
      val n = tcLen(a, 8) + (if (coin(s, 2)) 0 else pick(s, 3, 10))
      { u: fmod(a, 2^(8 * n)), n: n }
    } else if (k == 3) { val n = pick(s, 1, 40) { u: rnd(s, 10, 10) % 2^(8 * n), n: n } }
    else { // zero and 0xff bytes around
      val n = pick(s, 1, 24)
      val b = range(0, n).foldl({ u: 0, r: mix(s, 2) }, (acc, i) => {
        u: acc.u * 256 + [0, 0, 0, 255, 255, 255, 128, 127][acc.r % 8], r: if (i % 14 == 13) mix(s, 3 + i) else acc.r / 8 })
      { u: b.u, n: n }
    }
  }
  pure def gFrombytes(s: int): Ev = { val w = byteword(s) mFrombytes(w.u, w.n, coin(s, 900), coin(s, 901)) }
  pure def gFromlimbs(s: int): Ev = { val v = if (pick(s, 1, 8) == 0) 0 else nat(s, 10, pick(s, 1, 8)) mFromlimbs(v, limbs(v) + pick(s, 2, 4), coin(s, 3)) }
  // digit counts around multiples of nine, groups of zeros and of nines
  pure def decimal(s: int, i: int): int = {
    val k = pick(s, i, 6)
    val d = if (coin(s, i + 1)) 9 * pick(s, i + 2, 14) else pick(s, i + 2, 120)
    if (k == 0) 10^d else if (k == 1) 10^d - 1 else if (k == 2) 10^d * (1 + pick(s, i + 3, 999)) + pick(s, i + 4, 1000)
    else if (k == 3) imax(0, 10^d - 1 - pick(s, i + 3, E9)) else nat(s, i + 10, 1 + pick(s, i + 3, 24))
  }
  pure def gText(s: int): Ev = mText(if (pick(s, 0, 4) == 0) operand(s, 10, 64) else signed(s, 1, decimal(s, 10)))
  pure def gParse(s: int): Ev =
    if (pick(s, 5, 40) == 0) mParseNone(pick(s, 0, 3), pick(s, 4, 18))
    else mParse(pick(s, 0, 3), if (coin(s, 1)) 0 else pick(s, 2, 30), if (coin(s, 3)) 0 else pick(s, 4, 18), decimal(s, 10))
  pure def gMachine(s: int): Ev = {
    val k = pick(s, 0, 4)
    val e = [0, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 95, 96][pick(s, 1, 14)]
    mMachine(if (k < 2) signed(s, 2, 2^e + pick(s, 3, 9) - 4) else if (k == 2) signed(s, 2, nat(s, 10, 1 + pick(s, 3, 3)))
             else signed(s, 2, rnd(s, 10, 2) / 2^(pick(s, 3, 64))))
  }
  pure def gTodbl(s: int): Ev = {
    val k = pick(s, 0, 6)
    // a leading part of p bits, then a tail at a chosen distance: straddles the 53- and 24-bit windows
    val p = [1, 2, 23, 24, 25, 26, 28, 29, 30, 52, 53, 54, 55, 64][pick(s, 1, 14)]
    val sh = pick(s, 2, [8, 70, 140, 1000][pick(s, 3, 4)])
    val man = if (coin(s, 4)) 2^p - 1 - (if (coin(s, 5)) 0 else pick(s, 6, 4)) else 2^(p - 1) + rnd(s, 10, 3) % 2^(p - 1)
    val low = if (sh == 0) 0 else [0, 1, 2^sh - 1, 2^(sh - 1), imax(0, 2^(sh - 1) - 1), imin(2^sh - 1, 2^(sh - 1) + 1)][pick(s, 7, 6)]
    if (k == 0) mTodbl(operand(s, 10, 36))
    else if (k == 1) mTodbl(signed(s, 8, [2^1024, 2^1024 - 1, 2^1024 - 2^970, 2^1024 - 2^971, 2^1023, 2^1025, 2^128, 2^128 - 1, 2^128 - 2^103, 2^128 - 2^103 - 1, 2^128 - 2^104, 2^127][pick(s, 9, 12)] + pick(s, 11, 3) - 1))
    else mTodbl(signed(s, 8, man * 2^sh + low))
  }
  pure def gFromdbl(s: int): Ev = {
    val e = if (coin(s, 0)) pick(s, 1, 2048) else 1023 + pick(s, 1, 140) - 3
    val k = pick(s, 2, 6)
    val f = if (k == 0) 0 else if (k == 1) P52 - 1 else if (k == 2) 2^pick(s, 3, 52) else if (k == 3) P52 - 2^pick(s, 3, 52) else rnd(s, 10, 2) % P52
    mFromdbl((if (coin(s, 4)) P63 else 0) + e * P52 + f)
  }
  pure val BASES = [0, P63, ONE64, ONE64 - 1, ONE64 + 1, INF64, INF64 + P63, INF64 + 1, 4611686018427387904, TEN64, E64, 4602678819172646912, 1, 4503599627370496,
    INF64 - 1, 4607182418800017408 + P63, 4611686018427387904 + P63, 4598175219545276416, 4616189618054758400, 4643211215818981376, ONE64 + 1000000]
  pure def gLog(s: int): Ev = {
    val k = pick(s, 0, 8)
    val v = if (k == 0) pick(s, 1, 4) - 1 else if (k < 4) nat(s, 10, 1 + pick(s, 1, 4)) else if (k == 4) nat(s, 10, 1 + pick(s, 1, 120)) else if (k == 5) 2^pick(s, 1, 4000) + pick(s, 2, 3) - 1 else operand(s, 10, 40)
    if (coin(s, 3)) mLn(v)
    else mLog(v, if (coin(s, 4)) BASES[pick(s, 5, BASES.length())] else (if (pick(s, 6, 4) == 0) pick(s, 7, 2047) else 1000 + pick(s, 7, 50)) * P52 + rnd(s, 300, 2) % P52)
  }
  pure def gPred(s: int): Ev = {
    val k = pick(s, 0, 3)
    mPred(if (k == 0) signed(s, 1, 2^runpos(s, 2, 12)) else if (k == 1) signed(s, 1, 2^runpos(s, 2, 12) + signed(s, 5, 2^runpos(s, 6, 12))) else operand(s, 10, 40))
  }
  pure def gCanon(s: int): Ev = mCanon(operand(s, 0, 34))
}
