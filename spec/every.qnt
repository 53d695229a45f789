// -*- mode: Bluespec; -*-
// Every kind of call: on every combination of operand shapes, and drawn at random.
module every {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"
  import scan.* from "./scan"

  // operand shapes by representation and length class
  pure val FORM = [0, 1, -1, 2, -2, 2147483647, -2147483647, 2147483648, -2147483648, -2147483649, U32MAX, -U32MAX, W, -W, W + 1, W * W - 1, -(W * W), W * W,
    9223372036854775807, -9223372036854775808, 9223372036854775808, 2^95, -(2^96), 2^96 - 1, 1 - 2^128, 2^1023, 2^1024 - 1, -(2^1024), 2^1055 + 1, 2^1056 - 1, 1 - 2^1088,
    2^2047 + 2^64, -(2^2048), 2^2080 - 2^1040, 10^9, 10^18 + 1]
  pure val NFORM = 36
  pure val KINDS = 18
  pure val NANY = 36 * 36 * 18
  pure val COUNTS = [0, 1, -1, 31, 32, 33, 64, -31, -32, -33, -64, 1023, 1024, 1025, -1024, -1055, -1056, -2080, 2048, 127, 2147483647, -2147483648, -2147483647,
    2147483616, -2147483616, 95, 96, -96, 97, 1056, 1088, 2080, -2048, 3, 16, -5]
  pure val DBLS = [0, P63, 1, P63 - 1, INF64, INF64 + P63, INF64 + 1, INF64 - 1, ONE64, ONE64 + P63, E64, TEN64, 4607182418800017409, 4602678819172646912, 4890909195324358656,
    4746794007248502784, 4746794007244308480, 13970166044103278592, 4841369599423283200, 4841369599423283199]
  pure def callOf(kind: int, a: int, b: int, n: int, d: int, w: int): Ev =
    if (kind == 0) mAddsub(a, b) else if (kind == 1) mUnary(a) else if (kind == 2) mMul(a, b) else if (kind == 3) mDivmod(a, b)
    else if (kind == 4) mGcd(a, b) else if (kind == 5) mBit(a, b) else if (kind == 6) mCmp(a, b) else if (kind == 7) mBytes(a)
    else if (kind == 8) mText(a) else if (kind == 9) mMachine(a) else if (kind == 10) mTodbl(a) else if (kind == 11) mLog(a, d)
    else if (kind == 12) mLn(a) else if (kind == 13) mPred(a)
    else if (kind == 14) (if (n <= 4096 and bits(iabs(a)) <= 2100) mShl(a, n) else mShl(a, -iabs(n)))
    else if (kind == 15) mShr(a, if (n >= -4096) n else imin(-n, I32MAX))
    else if (kind == 16) mPow(a, w)
    else mSq(a)
  pure def sAny(i: int): Ev = {
    val kind = i % 18
    val a = FORM[(i / 18) / 36]
    val x = (i / 18) % 36
    val w = [0, 1, 2, 3, -1, -2147483648, 5, 2147483647][x % 8]
    callOf(kind, a, FORM[x], COUNTS[x], DBLS[x % 20],
        if (iabs(a) > 1 and w > 5) 4 else w)
  }
  pure def gAny(s: int): Ev = {
    val k = pick(s, 8888, 20)
    if (k == 0) gAddsub(s) else if (k == 1) gUnary(s) else if (k == 2) gMul(s) else if (k == 3) gSq(s) else if (k < 6) gDivmod(s)
    else if (k == 6) gPow(s) else if (k < 9) gModpow(s) else if (k < 11) gGcd(s) else if (k == 11) gShift(s) else if (k == 12) gBit(s)
    else if (k == 13) gCmp(s) else if (k == 14) (if (coin(s, 8889)) gBytes(s) else gFrombytes(s)) else if (k == 15) (if (coin(s, 8889)) gText(s) else gParse(s))
    else if (k == 16) gMachine(s) else if (k == 17) (if (coin(s, 8889)) gTodbl(s) else gFromdbl(s)) else if (k == 18) gLog(s)
    else (if (coin(s, 8889)) gPred(s) else gFromlimbs(s))
  }
}
