// -*- mode: Bluespec; -*-
// What every public operation of BigInteger means, over mathematical integers.
// Integers are unbounded in Quint, so nothing in this module has a width: limbs,
// signs, buffers and thresholds exist only in limbs.qnt.
//
// Quint's `/` and `%` are applied to non-negative operands only, so that the simulator
// (JavaScript BigInt, truncating) and TLC/Apalache (flooring) agree on them.
module semantics {
  pure val W = 4294967296            // one limb
  pure val I32MIN = -2147483648
  pure val I32MAX = 2147483647
  pure val U32MAX = 4294967295
  pure val I64MIN = -9223372036854775808
  pure val I64MAX = 9223372036854775807
  pure val U64MAX = 18446744073709551615

  pure def iabs(x: int): int = if (x < 0) -x else x
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def imin(x: int, y: int): int = if (x < y) x else y
  pure def imax(x: int, y: int): int = if (x < y) y else x
  pure def b2i(b: bool): int = if (b) 1 else 0

  // ---- number of bits of a non-negative integer below 2^8388608 -----------------------------
  pure val P2 = [
    { k: 4194304, p: 2^4194304 }, { k: 2097152, p: 2^2097152 }, { k: 1048576, p: 2^1048576 }, { k: 524288, p: 2^524288 }, { k: 262144, p: 2^262144 }, { k: 131072, p: 2^131072 }, { k: 65536, p: 2^65536 }, { k: 32768, p: 2^32768 },
    { k: 16384, p: 2^16384 }, { k: 8192, p: 2^8192 }, { k: 4096, p: 2^4096 }, { k: 2048, p: 2^2048 },
    { k: 1024, p: 2^1024 }, { k: 512, p: 2^512 }, { k: 256, p: 2^256 }, { k: 128, p: 2^128 },
    { k: 64, p: 2^64 }, { k: 32, p: 2^32 }, { k: 16, p: 2^16 }, { k: 8, p: 2^8 },
    { k: 4, p: 16 }, { k: 2, p: 4 }, { k: 1, p: 2 } ]
  pure def bits(n: int): int = {
    val z = P2.foldl({ n: n, k: 0 }, (acc, e) =>
      if (acc.n >= e.p) { n: acc.n / e.p, k: acc.k + e.k } else acc)
    z.k + z.n      // what is left of n is 0 or 1
  }
  pure def limbs(n: int): int = (bits(iabs(n)) + 31) / 32

  // ---- division: truncated towards zero (C99, C#), remainder with the dividend's sign ------
  pure def tdiv(a: int, b: int): int = {
    val q = iabs(a) / iabs(b)
    if ((a < 0) != (b < 0)) -q else q
  }
  pure def trem(a: int, b: int): int = {
    val r = iabs(a) % iabs(b)
    if (a < 0) -r else r
  }
  pure def fdiv(a: int, p: int): int = if (a >= 0) a / p else -((-a + p - 1) / p)   // floor, p > 0
  pure def fmod(a: int, p: int): int = a - p * fdiv(a, p)

  // ---- shifts: floor(a * 2^n), for every int n --------------------------------------------
  pure def shl(a: int, n: int): int =
    if (n >= 0) a * 2^n
    else if (-n > bits(iabs(a))) (if (a < 0) -1 else 0)
    else fdiv(a, 2^(-n))
  pure def shr(a: int, n: int): int = shl(a, -n)

  // ---- bitwise operations on the infinite two's complement ---------------------------------
  pure val NIB = [0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,
    0,0,2,2,0,0,2,2,0,0,2,2,0,0,2,2, 0,1,2,3,0,1,2,3,0,1,2,3,0,1,2,3,
    0,0,0,0,4,4,4,4,0,0,0,0,4,4,4,4, 0,1,0,1,4,5,4,5,0,1,0,1,4,5,4,5,
    0,0,2,2,4,4,6,6,0,0,2,2,4,4,6,6, 0,1,2,3,4,5,6,7,0,1,2,3,4,5,6,7,
    0,0,0,0,0,0,0,0,8,8,8,8,8,8,8,8, 0,1,0,1,0,1,0,1,8,9,8,9,8,9,8,9,
    0,0,2,2,0,0,2,2,8,8,10,10,8,8,10,10, 0,1,2,3,0,1,2,3,8,9,10,11,8,9,10,11,
    0,0,0,0,4,4,4,4,8,8,8,8,12,12,12,12, 0,1,0,1,4,5,4,5,8,9,8,9,12,13,12,13,
    0,0,2,2,4,4,6,6,8,8,10,10,12,12,14,14, 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15]
  pure val N8 = [1, 16, 256, 4096, 65536, 1048576, 16777216, 268435456]
  pure def band32(x: int, y: int): int =                                        // 0 <= x, y < 2^32
    if (x == 0 or y == 0) 0
    else if (x == U32MAX) y
    else if (y == U32MAX) x
    else N8.foldl(0, (acc, p) => acc + p * NIB[16 * ((x / p) % 16) + (y / p) % 16])
  // limb by limb, n <= 64 limbs
  pure def bandN(x: int, y: int, n: int): int =
    range(0, n).foldl({ x: x, y: y, p: 1, r: 0 }, (acc, i) => {
      x: acc.x / W, y: acc.y / W, p: acc.p * W, r: acc.r + acc.p * band32(acc.x % W, acc.y % W) }).r
  pure val W64 = W^64
  pure def band(a: int, b: int): int = {
    val n = imax(limbs(a), limbs(b)) + 1                 // enough limbs to hold both signs
    val m = W^n
    val z = if (n <= 64) bandN(fmod(a, m), fmod(b, m), n)
      else range(0, n / 64 + 1).foldl({ x: fmod(a, m), y: fmod(b, m), p: 1, r: 0 }, (acc, i) => {
        x: acc.x / W64, y: acc.y / W64, p: acc.p * W64, r: acc.r + acc.p * bandN(acc.x % W64, acc.y % W64, 64) }).r
    if (a < 0 and b < 0) z - m else z
  }
  pure def bor(a: int, b: int): int = a + b - band(a, b)
  pure def bxor(a: int, b: int): int = a + b - 2 * band(a, b)
  pure def bnot(a: int): int = -a - 1

  // ---- powers -----------------------------------------------------------------------------
  // value^exponent rem modulus, truncated: the sign is the sign of value^exponent
  pure def modpow(v: int, e: int, m: int): int = {
    val am = iabs(m)
    val z = range(0, bits(e)).foldl({ b: iabs(v) % am, e: e, r: 1 % am }, (acc, i) => {
      b: (acc.b * acc.b) % am, e: acc.e / 2,
      r: if (acc.e % 2 == 1) (acc.r * acc.b) % am else acc.r })
    if (v < 0 and e % 2 == 1) -z.r else z.r
  }

  // ---- greatest common divisor: Euclid; a step at least halves the product of the pair, and the first two
  // leave a pair no longer than the shorter operand ------------------------------------------
  pure def gcd(a: int, b: int): int = {
    val x = iabs(a)
    val y = iabs(b)
    range(0, 2 * imin(bits(x), bits(y)) + 3).foldl({ x: x, y: y }, (acc, i) =>
      if (acc.y == 0) acc else { x: acc.y, y: acc.x % acc.y }).x
  }

  // ---- two's complement encodings ------------------------------------------------------------
  // least n such that -2^(w n - 1) <= a < 2^(w n - 1), at least 1
  pure def tcBits(a: int): int = (if (a >= 0) bits(a) else bits(-a - 1)) + 1
  pure def tcLen(a: int, w: int): int = imax(1, (tcBits(a) + w - 1) / w)
  pure def tc(a: int, w: int): int = fmod(a, 2^(w * tcLen(a, w)))                 // the code word
  pure def usLen(a: int, w: int): int = imax(1, (bits(a) + w - 1) / w)              // a >= 0
  // the value of an n-unit code word u (0 <= u < 2^(w n))
  pure def decodeTc(u: int, n: int, w: int): int =
    if (n > 0 and u >= 2^(w * n - 1)) u - 2^(w * n) else u
  // an n-byte word with its bytes reversed
  pure def swapFew(u: int, n: int): int =
    range(0, n).foldl({ u: u, r: 0 }, (acc, i) => { u: acc.u / 256, r: acc.r * 256 + acc.u % 256 }).r
  pure val D256 = 2^2048
  pure def swapBytes(u: int, n: int): int =
    if (n <= 256) swapFew(u, n)
    else {
      val z = range(0, n / 256).foldl({ u: u, r: 0 }, (acc, i) => { u: acc.u / D256, r: acc.r * D256 + swapFew(acc.u % D256, 256) })
      z.r * 256^(n % 256) + swapFew(z.u, n % 256)
    }

  // ---- decimal text: 9-digit groups, most significant last ------------------------------------
  pure val E9 = 1000000000
  pure def groupsOf(n: int, least: int): List[int] =
    range(0, imax(least, bits(n) / 29 + 1)).foldl({ n: n, g: [] }, (acc, i) =>
      if (acc.n == 0 and acc.g.length() >= least) acc
      else { n: acc.n / E9, g: acc.g.append(acc.n % E9) }).g
  pure val E576 = 10^576                                       // 64 groups
  pure def groups(a: int): List[int] = {
    val n = iabs(a)
    if (n < E576) groupsOf(n, 1)
    else {
      val z = range(0, bits(n) / 1913).foldl({ n: n, g: [] }, (acc, i) =>
        if (acc.n < E576) acc else { n: acc.n / E576, g: acc.g.concat(groupsOf(acc.n % E576, 64)) })
      z.g.concat(groupsOf(z.n, 1))
    }
  }

  // ---- IEEE 754 binary64 / binary32, as bit patterns -----------------------------------------
  pure val INF64 = 9218868437227405312                   // 0x7FF0000000000000
  pure val P63 = 9223372036854775808
  pure val P52 = 4503599627370496
  pure val P53 = 9007199254740992
  // conversion to double truncates towards zero (as the C# class does), overflow gives infinity
  pure def toDouble(a: int): int = {
    val n = iabs(a)
    val k = bits(n)
    val s = if (a < 0) P63 else 0
    if (n == 0) 0
    else if (k > 1024) s + INF64
    else {
      val man = if (k > 53) n / 2^(k - 53) else n * 2^(53 - k)
      s + (k + 1022) * P52 + (man - P52)
    }
  }
  // conversion to float rounds that double to nearest, ties to even
  pure def toFloat(a: int): int = {
    val n = iabs(a)
    val k = bits(n)
    val s = if (a < 0) 2147483648 else 0
    if (n == 0) 0
    else if (k > 128) s + 2139095040                       // 0x7F800000
    else {
      val man = if (k > 53) n / 2^(k - 53) else n * 2^(53 - k)
      val q = man / 2^29
      val r = man % 2^29
      val up = r > 2^28 or (r == 2^28 and q % 2 == 1)
      s + (k + 126) * 8388608 + (q - 8388608) + b2i(up)      // a carry moves into the exponent
    }
  }
  // the double nearest to an integer, ties to even (Python's float of an int); -1 if it is too large for one
  pure def nearestDouble(a: int): int = {
    val n = iabs(a)
    val k = bits(n)
    if (k <= 53) toDouble(a)
    else if (k > 1024) -1
    else {
      val q = n / 2^(k - 53)
      val r = n % 2^(k - 53)
      val h = 2^(k - 54)
      val m = (k + 1022) * P52 + (q - P52) + b2i(r > h or (r == h and q % 2 == 1))
      if (m >= INF64) -1 else (if (a < 0) P63 else 0) + m
    }
  }
  pure def dblExp(d: int): int = (d / P52) % 2048
  pure def dblFinite(d: int): bool = dblExp(d) != 2047
  pure def dblIsInf(d: int): bool = d % P63 == INF64
  pure def dblIsNaN(d: int): bool = d % P63 > INF64
  // conversion from a finite double truncates towards zero
  pure def fromDouble(d: int): int = {
    val e = dblExp(d)
    val f = d % P52
    val n = if (e == 0) 0                                     // zeros and denormals
            else if (e >= 1075) (f + P52) * 2^(e - 1075)
            else if (1075 - e > 53) 0
            else (f + P52) / 2^(1075 - e)
    if (d >= P63) -n else n
  }

  // ---- base-2 logarithm in fixed point: 110 fractional bits, error below 2^-108 ------------------
  pure val P256 = 2^256
  pure def log2fp(n: int, d: int): int = {                       // floor-ish log2(n / d) * 2^110, n, d > 0
    val k0 = bits(n) - bits(d)
    // m = n / d / 2^k in [1, 2), 256 fractional bits
    val m0 = if (k0 >= 0) n * P256 / (d * 2^k0) else n * P256 * 2^(-k0) / d
    val k = if (m0 < P256) k0 - 1 else k0
    val m = if (m0 < P256) m0 * 2 else m0
    range(0, 110).foldl({ m: m, r: k }, (acc, i) => {
      val q = acc.m * acc.m / P256
      if (q >= 2 * P256) { m: q / 2, r: 2 * acc.r + 1 } else { m: q, r: 2 * acc.r }
    }).r
  }
  pure val E64 = 4613303445314885481                               // the double 2.7182818284590451
  pure val TEN64 = 4621819117588971520                             // the double 10
  pure val ONE64 = 4607182418800017408                             // the double 1
  // log(v) in base `d` (a double's bit pattern): kind 0 finite (fp scaled by 2^60), 1 +inf, 2 -inf, 3 NaN
  pure def logOf(v: int, d: int): { kind: int, fp: int } = {
    val e = dblExp(d)
    if (v < 0 or dblIsNaN(d) or d == ONE64) { kind: 3, fp: 0 }
    else if (d == INF64 or d == 0 or d == P63) { kind: if (v == 1) 0 else 3, fp: 0 }
    else if (d > P63) { kind: 3, fp: 0 }
    else if (v == 0) { kind: if (d > ONE64) 2 else 1, fp: 0 }
    else {
      val man = d % P52 + (if (e == 0) 0 else P52)
      val x = imax(e, 1) - 1075
      val lb = if (x >= 0) log2fp(man * 2^x, 1) else log2fp(man, 2^(-x))
      { kind: 0, fp: tdiv(log2fp(v, 1) * 2^60, lb) }
    }
  }

  pure def isPow2(a: int): bool = a > 0 and 2^(bits(a) - 1) == a
  // what get_bit_length counts: the shortest two's complement without the sign bit
  pure def bitLength(a: int): int = tcBits(a) - 1
}
