// -*- mode: Bluespec; -*-
// Operands around 2^14, 2^15 and 2^16 limbs: lengths beyond 16 bits, bit lengths beyond 20. A few calls of each kind.
module giant {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import long.* from "./long"

  pure val GSIZE = [65535, 65536, 65537, 16383, 16384, 16385, 32767, 32768, 32769, 66001]
  pure def xWord(i: int, k: int, n: int): int = if (k == 0) W^n - 1 else if (k == 1) W^(n - 1) else if (k == 2 and n > 8) lRandom(i, n) else if (k == 3) shape(2, n) else rnd(i, 9, n)
  pure def xA(i: int): int = xWord(i, (i * 2 + i / 10) % 5, GSIZE[i % 10])
  pure def xB(i: int): int = xWord(i + 100, (i * 3 + 1 + i / 10) % 5, imax(1, [0, 65537, 3, 40, 1, 65535][(i + i / 10) % 6] + (if ((i + i / 10) % 6 == 0) GSIZE[i % 10] - i / 10 else 0)))

  pure val NXADD = 12
  pure def xAddsub(i: int): Ev = mAddsub(alt(i, xA(i)), alt(i / 2, xB(i)))
  pure val NXUN = 5
  pure def xUnary(i: int): Ev = mUnary(alt(i + i / 5, W^(GSIZE[i]) - i % 2))
  pure val NXMUL = 12
  pure def xMul(i: int): Ev = mMul(alt(i, xA(i)), alt(i / 2, if (i < 8) xWord(i + 50, i % 5, [1, 2, 33, 1000][i % 4]) else xWord(i, 2, GSIZE[i % 10] - i)))
  pure val NXSQ = 4
  pure def xSq(i: int): Ev = mSq(alt(i, xA(i + 1)))
  pure val NXDIV = 20
  pure def xDivmod(i: int): Ev = {
    val b = imax(1, xWord(i + 70, i % 5, [1, 2, 3, 40, GSIZE[i % 10] - 3][i / 4]))
    mDivmod(alt(i, if (i % 3 == 0) xA(i) else if (i % 3 == 1) (xA(i) / b) * b else (xA(i) / b) * b + b - 1), alt(i / 2, b))
  }
  pure val NXPOW = 10
  pure def xPow(i: int): Ev = mPow([2, W, -2, 4294967297, 3, -W - 1, 10, 65535, 2^31, -7][i], [2097151, 65536, 2097121, 65535, 700001, 32769, 500000, 131073, 65537, 123457][i])
  pure val NXMOD = 8
  pure def xModpow(i: int): Ev = mModpow(alt(i, xA(i)), [3, 65537, 2^64 + 1, 1][i / 2], alt(i / 3, imax(2, xWord(i, 2 + i % 3, [1, 40, 5, 100][i % 4]))))
  pure val NXGCD = 12
  pure def xGcd(i: int): Ev = {
    val g = imax(1, xWord(i, 2 + i % 3, [1, 3, 5][i % 3]))
    val b = g * imax(1, xWord(i + 20, 4, 1 + i % 4))
    val a = (xA(i) / g) * g
    if (i % 2 == 0) mGcd(alt(i / 2, a), b) else mGcd(b, alt(i / 2, a))
  }
  pure val NXSHIFT = 20
  pure def xShift(i: int): Ev = {
    val n = [2097151, 2097152, 1048576, 524287, 65536 * 31, 32767, 1, 32, 2097120, 65535][i / 2]
    if (i % 2 == 0) mShl(alt(i / 2, [1, 3, 2147483647, W - 1, W + 5][i % 5]), n) else mShr(alt(i / 2, xA(i)), n)
  }
  pure val NXBIT = 4
  pure def xBit(i: int): Ev = mBit(alt(i, xA(i)), alt(i / 2, xB(i)))
  pure val NXCMP = 20
  pure def xCmp(i: int): Ev = { val a = alt(i / 2, xA(i)) mCmp(a, if (i % 4 == 3) alt(i / 4, xB(i)) else a + alt(i / 4, W^(pick(i, 50, GSIZE[i % 10])))) }
  pure val NXMACH = 6
  pure def xMachine(i: int): Ev = mMachine(alt(i, xA(i)))
  pure val NXBYTES = 3
  pure def xBytes(i: int): Ev = mBytes(alt(i, xA(i)))
  pure val NXFROM = 4
  pure def xFrombytes(i: int): Ev = {
    val a = alt(i / 2, xA(i))
    if (i % 2 == 1) mFrombytes(iabs(a), usLen(iabs(a), 8) + i % 5, true, (i / 4) % 2 == 1)
    else { val m = tcLen(a, 8) + i % 3 mFrombytes(fmod(a, 2^(8 * m)), m, false, (i / 4) % 2 == 1) }
  }
  pure val NXTEXT = 2
  pure def xText(i: int): Ev = mText(alt(i, xA(i + 3)))
  pure val NXPARSE = 2
  pure def xParse(i: int): Ev = mParse(i % 3, 0, 0, xA(i + 3) / W^8192)
  pure val NXDBL = 10
  pure def xTodbl(i: int): Ev = mTodbl(alt(i, xA(i)))
  pure val NXLOG = 10
  pure def xLog(i: int): Ev = if (i % 2 == 0) mLn(xA(i)) else mLog(xA(i), BASES[i % 21])
  pure val NXPRED = 20
  pure def xPred(i: int): Ev = mPred(alt(i, if (i % 3 == 0) 2^(32 * GSIZE[i % 10] - i) else xA(i)))
}
