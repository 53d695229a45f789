// Operands. Everything is a function of one 64-bit word `s` chosen nondeterministically per
// step; `i` names independent draws from it.
module gen {
  import semantics.* from "./semantics"
  pure val M64 = 2^64
  pure def mix(s: int, i: int): int = {
    val x = ((s + (i + 1) * 0x9E3779B97F4A7C15) * 0xBF58476D1CE4E5B9) % M64
    val y = ((x / 2^31 + x) * 0x94D049BB133111EB) % M64
    val z = ((y / 2^29 + y) * 0xD6E8FEB86659FD93) % M64
    z / 2^16                                                  // 48 bits
  }
  pure def pick(s: int, i: int, n: int): int = mix(s, i) % n
  pure def coin(s: int, i: int): bool = mix(s, i) % 2 == 1

  pure val ALPHA = [0, 1, U32MAX, 2147483648, 2147483647, 2147483649, 4294967294, 2]

  // n random limbs
  pure def rnd(s: int, i: int, n: int): int = {
    val x = mix(s, i) * 281474976710656 + mix(s, i + 1000) * 2 + 1      // 97 bits, odd
    (x^(n / 2 + 2) / 2^61) % W^n
  }
  // up to n limbs made of long runs of ones and zeros, mostly limb-aligned
  pure def runpos(s: int, i: int, n: int): int = {
    val k = pick(s, i, n + 1) * 32
    val j = pick(s, i + 1, 8)
    if (j < 4) k else if (j == 4) k + 1 else if (j == 5) imax(0, k - 1) else k + pick(s, i + 2, 32)
  }
  pure def runs(s: int, i: int, n: int): int = {
    val k = pick(s, i, 4)
    val v = 2^(n * 32 - (if (coin(s, i + 1)) pick(s, i + 2, 33) else 0))
          - 2^runpos(s, i + 3, n)
          + (if (k < 3) 2^runpos(s, i + 6, n) else 0)
          - (if (k < 2) 2^runpos(s, i + 9, n) else 0)
          + (if (k < 1) 2^runpos(s, i + 12, n) else 0)
          + pick(s, i + 15, 5) - 2
    iabs(v) % W^n
  }
  // n limbs over the alphabet
  pure def alpha(s: int, i: int, n: int): int =
    range(0, n).foldl({ r: mix(s, i), v: 0 }, (acc, j) => {
      r: if (j % 14 == 13) mix(s, i + j) else acc.r / 8, v: acc.v * W + ALPHA[acc.r % 8] }).v
  // one power of two or limb boundary, and its neighbours
  pure def bound(s: int, i: int, n: int): int =
    iabs(2^runpos(s, i, n) * (1 + pick(s, i + 3, 3)) + pick(s, i + 4, 7) - 3)
  pure def nat(s: int, i: int, n: int): int = {
    val k = pick(s, i, 10)
    if (k < 3) rnd(s, i + 20, n)
    else if (k < 7) runs(s, i + 20, n)
    else if (k < 9) alpha(s, i + 20, imin(n, 48))
    else bound(s, i + 20, n)
  }
  pure val EDGE = [0, 1, 2, 3, 5, 7, 10, 31, 32, 33, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483646,
    2147483647, 2147483648, 2147483649, 4294967294, 4294967295, 4294967296, 4294967297, 9223372036854775807,
    9223372036854775808, 9223372036854775809, 18446744073709551614, 18446744073709551615, 18446744073709551616,
    18446744073709551617, 999999999, 1000000000, 1000000001, 999999999999999999, 1000000000000000000,
    18446744069414584321, 79228162514264337593543950335, 79228162514264337593543950336]
  pure def edge(s: int, i: int): int = EDGE[pick(s, i, EDGE.length())]
  pure def signed(s: int, i: int, v: int): int = if (coin(s, i)) -v else v
  // operand lengths around the places where the code changes algorithm
  pure val LENS = [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 34, 35, 47, 48, 63, 64, 65, 66, 67, 96]
  pure def len(s: int, i: int, cap: int): int = {
    val k = pick(s, i, 8)
    if (k < 4) 1 + pick(s, i + 1, imin(cap, 6))
    else if (k < 6) 1 + pick(s, i + 1, imin(cap, 34))
    else imin(cap, LENS[pick(s, i + 1, LENS.length())])
  }
  pure def operand(s: int, i: int, cap: int): int = {
    val k = pick(s, i, 8)
    signed(s, i + 1, if (k == 0) edge(s, i + 2)
                     else if (k == 1) pick(s, i + 2, 2147483648)
                     else nat(s, i + 50, len(s, i + 2, cap)))
  }
  // a second operand, often related to the first
  pure def related(s: int, i: int, a: int, cap: int): int = {
    val k = pick(s, i, 18)
    if (k == 0) a
    else if (k == 16) twin(s, i + 1, a)
    else if (k == 1) -a
    else if (k == 2) a + pick(s, i + 1, 5) - 2
    else if (k == 3) pick(s, i + 1, 5) - 2 - a
    else if (k == 4) fdiv(a, 2^runpos(s, i + 1, imax(1, limbs(a))))
    else if (k == 5) signed(s, i + 1, W^(limbs(a)) - iabs(a))
    else if (k == 6) a + signed(s, i + 1, 2^runpos(s, i + 2, imax(1, limbs(a))))
    else operand(s, i + 1, cap)
  }

  pure def rotl7(d: int): int = (d * 128) % W + d / 2^25
  // another value of the same sign and length with the same digest: the hash, or the sum (and xor) of the limbs
  pure def twin(s: int, i: int, x: int): int = {
    val n = limbs(x)
    if (n < 3) -x
    else {
      val m = iabs(x)
      val j = pick(s, i, n - 2)                     // limbs j and j + 1 change, the top one does not
      val lo = (m / W^j) % W
      val hi = (m / W^(j + 1)) % W
      val d = 1 + (if (coin(s, i + 1)) pick(s, i + 2, U32MAX) else 2^pick(s, i + 2, 32) - 1)
      val y = if (lo == hi or pick(s, i + 3, 4) > 0) m + W^j * (bxor(lo, rotl7(d % W)) - lo) + W^(j + 1) * (bxor(hi, d % W) - hi)
              else m + W^j * (hi - lo) + W^(j + 1) * (lo - hi)
      if (x < 0) -y else y
    }
  }

  // ---- tables for exhaustive scans: every magnitude of up to three limbs over five limb values ----------
  pure val A5 = [0, 1, 2147483647, 2147483648, U32MAX]
  pure def word(i: int): int = A5[i % 5] + W * (A5[(i / 5) % 5] + W * A5[(i / 25) % 5])       // i < 125
  pure def sword(i: int): int = if (i < 125) word(i) else -word(i - 124)                      // i < 249
  pure def word4(i: int): int = word(i % 125) + W^3 * A5[(i / 125) % 5]                       // i < 625
  pure def sword4(i: int): int = if (i < 625) word4(i) else -word4(i - 624)                   // i < 1249
  pure val SWORD = range(0, 249).foldl([], (acc, i) => acc.append(sword(i)))
  // n limbs in one of the shapes that stress carries, borrows and guesses
  pure def shape(k: int, n: int): int =
    if (k == 0) W^n - 1 else if (k == 1) W^(n - 1) else if (k == 2) W^n - W^(n / 2) + 1
    else if (k == 3) (W^n - 1) / 3 * 2 + 1 else if (k == 4) W^n / 2 else if (k == 5) W^n / 2 - 1
    else if (k == 6) W^n / 2 + W^(n / 2) - 1 else rnd(k * 7919 + n, 3, n)
  pure def alt(i: int, v: int): int = if (i % 2 == 0) v else -v
  // powers of two and their neighbours, fourteen for each exponent
  pure def near2(i: int): int = alt(i, 2^(i / 14) + (i / 2) % 7 - 3)
}
