// -*- mode: Bluespec; -*-
// Finite tables of calls, replayed completely on every run: entry number i of each, and how many there are.
module scan {
  import semantics.* from "./semantics"
  import gen.* from "./gen"
  import events.* from "./events"
  import history.* from "./history"

  pure val NWORDS = 249
  pure val NPAIRS = 62001
  pure def pairA(i: int): int = SWORD[i / 249]
  pure def pairB(i: int): int = SWORD[i % 249]

  // lengths around every threshold, eight shapes each
  pure val SIZES = [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 30, 31, 32, 33, 34, 35, 47, 48, 63, 64, 65, 66, 67, 68, 95, 96, 97, 100, 127, 128, 129, 130]
  pure val NSIZES = 32
  pure def sizeA(i: int): int = SIZES[(i / 64) / NSIZES]
  pure def sizeB(i: int): int = SIZES[(i / 64) % NSIZES]
  pure val NSIZEPAIRS = 65536                                    // 32 * 32 lengths, 8 * 8 shapes
  pure def bigA(i: int): int = alt(i / 3, shape((i % 64) / 8, sizeA(i)))
  pure def bigB(i: int): int = alt(i, shape(i % 8, sizeB(i)))

  pure val SHIFTS = 201
  pure def sShift(i: int): Ev = mShl(SWORD[i / SHIFTS], i % SHIFTS - 100)

  pure val POWV = [0, 1, -1, 2, -2, 3, -3, 10, 65535, 65536, -65536, 2147483647, -2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296,
    -4294967297, 18446744073709551615, 18446744073709551616, -79228162514264337593543950335, 340282366920938463463374607431768211456]
  pure val POWE = [-2147483648, -2147483647, -2, -1, 2147483647, 2147483646, 1073741824, 65536]
  pure val NPOW = 23 * 72
  pure def sPow(i: int): Ev = {
    val v = POWV[i / 72]
    val n = if (i % 72 < 8) POWE[i % 72] else i % 72 - 8
    if (n > 64 and iabs(v) > 1) mPow(v, n % 64) else mPow(v, n)
  }
  // powers whose size no int can hold: from the least such exponent up
  pure val NPOWBIG = 20 * 4
  pure def sPowBig(i: int): Ev = {
    val v = alt(i, [2^63, 2^64 - 1, 2^64, 2^65 + 1, 2^95, 2^96 - 1, 2^127 + 3, 2^255, 2^1023, 2^1024 - 1, 2^1055 + 12345, 2^2047, 2^2048 - 1, 2^4095, 10^30, 10^300, 3^100, 3^1000, 2^2080 - 1, 2^3000][i / 4])
    val n = (68719476736 + bits(iabs(v)) - 2) / (bits(iabs(v)) - 1)
    mPow(v, [imin(n, I32MAX), I32MAX, imin(n + 1 + i % 7, I32MAX), I32MAX - 1 - i % 5][i % 4])
  }
  pure val MODV = [0, 1, -1, 2, -2, 3, -7, 2147483647, -2147483647, 2147483648, -2147483648, -2147483649, U32MAX, W, -W, W + 1, W * W - 1, -(W * W), W * W * W - 1,
    2^95 + 1, -(2^127), 2^1023 + 5, 2^1024, 1 - 2^1056, 2^1088 - 2^544 + 1, -(2^1055) - 1]
  pure val MODX = [0, 1, 2, 3, 10, 65537, 2147483647, 2147483648, U32MAX, W, W + 1, W * W - 1, 2^95 + 1, -1, -2147483648, -W]
  pure val NMOD = 26 * 26 * 16
  pure def sModpow(i: int): Ev = mModpow(MODV[i / 416], MODX[i % 16], MODV[(i / 16) % 26])

  // neighbours in chains of remainders with constant quotients, times a common factor
  pure val NCHAIN = 1600
  pure def sChain(i: int): Ev = {
    val q = [1, 2, 3, 65535, 2147483647, U32MAX, W, W * W + 1][i % 8]
    val z = range(0, if (q < 4) i / 8 else i / 32).foldl({ x: 1, y: 0 }, (acc, j) => { x: q * acc.x + acc.y, y: acc.x })
    val g = if (i % 3 == 0) 1 else if (i % 3 == 1) W - 1 else 2^67
    mGcd(alt(i, z.x * g), z.y * g)
  }

  // byte words over five byte values, up to five bytes, and no byte at all
  pure val NB5 = 3906 * 4
  pure val BY = [0, 1, 127, 128, 255]
  pure def sFrombytes(i: int): Ev = {
    val k = i / 4
    val n = if (k == 0) 0 else if (k < 6) 1 else if (k < 31) 2 else if (k < 156) 3 else if (k < 781) 4 else 5
    val j = k - [0, 1, 6, 31, 156, 781][n]
    val u = range(0, n).foldl({ j: j, u: 0 }, (acc, x) => { j: acc.j / 5, u: acc.u * 256 + BY[acc.j % 5] }).u
    mFrombytes(u, n, i % 2 == 1, (i / 2) % 2 == 1)
  }
  // every number of bytes up to 24: encodings with 0..8 redundant sign bytes
  pure val NPAD = 25 * 9 * 6 * 4
  pure def sPad(i: int): Ev = {
    val n = (i / 24) / 9
    val z = (i / 24) % 9
    val top = 2^(8 * imax(1, n) - 1)
    val a = [top - 1, top, -top, -top - 1, 1 - top, 2 * top - 1][(i / 4) % 6]
    val us = i % 2 == 1
    if (us) mFrombytes(iabs(a), usLen(iabs(a), 8) + z, true, (i / 2) % 2 == 1)
    else { val m = tcLen(a, 8) + z mFrombytes(fmod(a, 2^(8 * m)), m, false, (i / 2) % 2 == 1) }
  }
  pure val NTEXT = 130 * 10
  pure def sText(i: int): Ev = mText(alt(i, iabs([1, 10, 0, 5, 9][(i / 2) % 5] * 10^(i / 10) + (if ((i / 2) % 5 == 2) (10^(i / 10) - 1) / 9 * (1 + i % 9) else (i % 3) - 1))))
  pure val PV = [0, 7, 123456789, 999999999, 1000000000, 4294967295, 2147483648, 10^18 - 1, 10^18, 10^27 + 5, 123456789 * 10^9, 10^45 - 1]
  pure val PZ = [0, 1, 7, 8, 9, 10, 17, 18, 19]
  pure val NPARSE = 12 * 9 * 18 * 3 + 54
  pure def sParse(i: int): Ev =
    if (i < 54) mParseNone(i % 3, i / 3) else { val j = i - 54 mParse(j % 3, PZ[(j / 3) % 9], (j / 27) % 18, PV[j / 486]) }
  pure val NMACH = 98 * 14
  pure def sFromdbl(i: int): Ev = mFromdbl((if (i % 2 == 0) 0 else P63) + (i / 12) * P52 + [0, 1, P52 / 2, P52 - 1, P52 - 2, 1234567890123456][(i / 2) % 6])
  pure val NFROMDBL = 24576
  pure val TP = [1, 2, 23, 24, 25, 26, 29, 30, 52, 53, 54, 55, 63, 64]
  pure val TS = [0, 1, 2, 3, 4, 7, 8, 10, 11, 12, 21, 29, 30, 31, 32, 33, 40, 63, 64, 65, 74, 75, 95, 96, 98, 99, 103, 104, 200, 959, 960, 961, 970, 971, 1000, 1023]
  pure val NTODBL = 14 * 36 * 18
  pure def sTodbl(i: int): Ev = {
    val p = TP[i / 648]
    val sh = TS[(i / 18) % 36]
    val man = [2^p - 1, 2^(p - 1), 2^(p - 1) + 2^p / 4][i % 3]
    val low = [0, imin(1, 2^sh - 1), 2^sh - 1, 2^sh / 2, imax(0, 2^sh / 2 - 1), imin(2^sh - 1, 2^sh / 2 + 1)][(i / 3) % 6]
    mTodbl(alt(i, man * 2^sh + low))
  }
  pure val NLOG = 60 * 21
  pure def sLog(i: int): Ev = {
    val v = [0, 1, 2, 3, 4, 7, 8, 9, 10, 16, 99, 100, 1000, 1024, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 10^18, 2^64 - 1, 2^64, 2^65 + 1, 10^20,
      2^95, 2^96 - 1, 2^96, 2^128 - 1, 10^100, 2^1023, 2^1024 - 1, 2^1024, 10^400, 2^2048 - 1, -1, -2, -(2^31), -(2^64), -(10^400), 3^500,
      5, 6, 11, 12, 13, 2^31 + 1, 2^32 + 1, 2^33, 2^52, 2^53, 2^53 + 1, 2^63 - 1, 2^63, 2^63 + 1, 2^97 - 1, 2^97, 2^127, 2^2047, 2^160 - 1, 2^192][i / 21]
    if (i % 21 == 20) mLn(v) else mLog(v, BASES[i % 21])
  }
  pure val PB = [0, 1, 2, 7, 8, 15, 16, 30, 31, 32, 33, 47, 62, 63, 64, 65, 95, 96, 97, 127, 128, 129]
  pure val NPRED = 22 * 22 * 4
  pure def sPred(i: int): Ev = mPred(alt(i, 2^PB[(i / 4) % 22] + alt(i / 2, 2^PB[i / 88])))

  // ---- one call from a chosen state of four objects, in every pattern of aliasing ---------------------
  pure val SHAPES = [0, 1, -1, 2, -3, 2147483647, -2147483647, 2147483648, -2147483648, U32MAX, -W, W * W - 1, -(W * W), 2^95 + 2^31 + 1, 1 - 2^128,
    2^1055 + 12345, 2^1088 - 1, -(2^2047) - 987654321]
  pure val NSHAPES = 18
  pure def setEv(s: int): Ev = {
    val g = range(0, 4).foldl([], (acc, x) => acc.append(SHAPES[pick(s, 60 + x, NSHAPES)]))
    { op: "h", a: [48, 0, 0, 0, 0, 0], e: "", r: g }
  }
  pure val NALIAS = 48 * 256
  pure def aliasCall(i: int, s: int): Call = {
    val o = i / 256
    { o: if (o == RESET) COPY else o, d: i % 4, i: (i / 4) % 4, j: (i / 16) % 4, k: (i / 64) % 4,
      m: if (o == 37) pick(s, 70, 5) - 1 else if (o == 41) pick(s, 70, 4)
         else [0, 1, 31, 32, 33, 64, 96, -1, -32, -64, 5, 127][pick(s, 70, 12)] }
  }
  pure def aliasEv(g: List[int], c: Call): Ev = if (small(g, c)) after(g, c).ev else { op: "skip", a: [], e: "", r: g }
}
