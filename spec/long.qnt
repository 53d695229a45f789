// -*- mode: Bluespec; -*-
// Operands of hundreds and thousands of limbs: tables of calls in the depth of the recursions and of the quadratic loops.
module long {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"

  pure val LSIZE = [200, 255, 256, 257, 300, 400, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4096]
  // length of the second operand: as long, a little shorter, half and about, two thirds, around the threshold, short
  pure def lSecond(n: int, k: int): int = [n, n - 1, n / 2, n / 2 + 1, 2 * n / 3, n / 3, 33, 32, 2, n - 31][k]
  // random limbs with a block of zero limbs and a block of ones at places of their own
  pure def lRandom(i: int, n: int): int = {
    val z = pick(i, 1, n - 4)
    val o = pick(i, 2, n - 4)
    val v = rnd(i, 3, n)
    val zl = 1 + pick(i, 4, imin(40, n - z))
    val ol = 1 + pick(i, 5, imin(40, n - o))
    val w = v - (fdiv(v, W^z) % W^zl) * W^z
    iabs(w - (fdiv(w, W^o) % W^ol) * W^o + (W^ol - 1) * W^o)
  }
  pure def lWord(i: int, k: int, n: int): int = if (k < 7) shape(k, n) else if (k == 7) lRandom(i, n) else if (k == 8) rnd(i, 9, n) else W^n - 1 - W^(n / 3)
  pure def lA(i: int): int = lWord(i, (i * 7 + i / 20) % 10, LSIZE[i % 20])
  pure def lB(i: int): int = lWord(i + 1000, (i * 3 + i / 13) % 10, imax(1, lSecond(LSIZE[i % 20], (i / 20) % 10)))

  pure val NLMUL = 400
  pure def lMul(i: int): Ev = mMul(alt(i, lA(i)), alt(i / 2, lB(i)))
  pure val NLSQ = 100
  pure def lSq(i: int): Ev = mSq(alt(i, lA(i)))
  pure val NLDIV = 400
  pure def lDivmod(i: int): Ev = {
    val a = lA(i)
    val b = imax(1, lB(i))
    if (i % 3 == 0) mDivmod(alt(i, a), alt(i / 2, b))
    else if (i % 3 == 1) mDivmod(alt(i, a * b - 1), alt(i / 2, b))                // all digits of a - 1, the largest remainder
    else mDivmod(alt(i, a * b + b / 2), alt(i / 2, b))
  }
  pure val NLADD = 200
  pure def lAddsub(i: int): Ev = if (i % 2 == 0) mAddsub(alt(i / 2, lA(i)), alt(i / 4, lB(i))) else mAddsub(alt(i / 2, W^(LSIZE[i % 20])), alt(i / 4, lB(i)))
  pure val NLPOW = 120
  pure def lPow(i: int): Ev = {
    val v = [3, -7, 10, 65537, 2147483647, U32MAX, W, -(W + 1), 2^95 + 1, W * W - 1, -(2^1023) - 5, 2^1055 + 2^40][i % 12]
    mPow(v, [131072, 65536, 40000, 16384, 8191, 8192][i / 20 % 6] / imax(1, bits(iabs(v))) + i % 5)
  }
  pure val NLMOD = 60
  pure def lModpow(i: int): Ev = {
    val n = [96, 127, 128, 129, 200, 256, 300, 511, 512, 600][i % 10]
    val m = imax(2, lWord(i, (i * 7) % 10, n))
    val v = [m - 1, lWord(i + 7, 8, 2 * n), 3, m + 1, lWord(i + 9, 9, n - 1), W^n - 1][i / 10]
    mModpow(alt(i, v), [3, 65537, 1000003, 2^32, 2^33 - 1, 2^32 + 5][(i + i / 10) % 6], alt(i / 2, m))
  }
  pure val NLGCD = 36
  pure def lGcd(i: int): Ev = {
    val n = [60, 100, 128, 150, 200, 250][i % 6]
    val g = lWord(i, 8, [1, 2, 3, n / 4, n / 3, n / 2][i / 6])
    mGcd(alt(i, lWord(i + 5, (i * 3) % 10, n / 2) * g), alt(i / 2, lWord(i + 6, 7 + i % 3, n / 2 - i % 4) * g))
  }
  pure val NLBIT = 60
  pure def lBit(i: int): Ev = mBit(alt(i, lA(i)), alt(i / 2, lB(i)))
  pure val NLSHIFT = 200
  pure def lShift(i: int): Ev = {
    val a = alt(i, lA(i))
    val n = [1, 31, 32, 33, 1000, 8192, 32767, 32768, 65536, 100000][(i / 20) % 10]
    if (i % 3 == 0) mShl(a, n) else mShr(a, n)
  }
  pure val NLCMP = 100
  pure def lCmp(i: int): Ev = { val a = alt(i / 2, lA(i)) mCmp(a, if (i % 2 == 0) alt(i / 4, lB(i)) else a + alt(i / 4, W^(pick(i, 50, LSIZE[i % 20])))) }
  pure val NLBYTES = 60
  pure def lBytes(i: int): Ev = mBytes(alt(i, lA(i)))
  pure val NLFROM = 80
  pure def lFrombytes(i: int): Ev = {
    val a = alt(i / 4, lA(i))
    val us = i % 2 == 1
    if (us) mFrombytes(iabs(a), usLen(iabs(a), 8) + i % 7, true, (i / 2) % 2 == 1)
    else { val m = tcLen(a, 8) + i % 7 mFrombytes(fmod(a, 2^(8 * m)), m, false, (i / 2) % 2 == 1) }
  }
  pure val NLTEXT = 60
  pure def lText(i: int): Ev = mText(alt(i, if (i % 4 == 3) 10^(9 * LSIZE[i % 20]) - i % 3 else lA(i % 15)))
  pure val NLPARSE = 40
  pure def lParse(i: int): Ev = mParse(i % 3, [0, 300, 5][i % 3], (i * 5) % 18, if (i % 4 == 3) 10^(9 * LSIZE[i % 10]) - i % 3 else lA(i % 10))
  pure val NLPRED = 100
  pure def lPred(i: int): Ev = mPred(alt(i, if (i % 3 == 0) 2^(32 * LSIZE[i % 20] - i % 40) else lA(i)))
  pure val NLDBL = 60
  pure def lTodbl(i: int): Ev = mTodbl(alt(i, lA(i)))
  pure val NLLOG = 40
  pure def lLog(i: int): Ev = if (i % 2 == 0) mLn(lA(i)) else mLog(lA(i), BASES[i % 21])
}
