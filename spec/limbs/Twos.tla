-------------------------------- MODULE Twos --------------------------------
(* Everything that goes through two's complement: the in-place complement of a magnitude, shifts, the bitwise
   operators, limb and byte encodings and the constructors that read them - loop by loop, for a limb of K bits made of
   four bytes of K / 4 bits. A number is its sign word and its limbs, as in the implementation: no limbs while the
   magnitude is below B / 2. *)
EXTENDS Limbs
CONSTANTS N, LIM, SH                  \* magnitudes up to LIM < B ^ N; shift counts up to SH
H == B \div 2
BB == 2 ^ (K \div 4)                  \* values of a byte
RECURSIVE NL(_)
NL(v) == IF v = 0 THEN 0 ELSE 1 + NL(v \div B)
Cat(x, y, n) == [i \in 0 .. Size(x) + n - 1 |-> IF i < Size(x) THEN x[i] ELSE y[i - Size(x)]]

\* ------------------------------------------------ representation
Rep(v) == IF Abs(v) < H THEN [s |-> v, n |-> 0, b |-> Zeros(0)]
          ELSE [s |-> IF v < 0 THEN -1 ELSE 1, n |-> NL(Abs(v)), b |-> OfVal(Abs(v), NL(Abs(v)))]
Num(x) == IF x.n = 0 THEN x.s ELSE x.s * ValN(x.b, x.n)
Canonical(x) == IF x.n = 0 THEN x.s > -H /\ x.s < H
                ELSE x.s \in {-1, 1} /\ x.b[x.n - 1] # 0 /\ (x.n > 1 \/ x.b[0] >= H)
Word(s) == s % B                                                                    \* static_cast<uint32_t>(_sign)
\* BigInteger(uint_array, bool)
Make(a, n0, neg) == LET n == LenOf(a, n0) IN
  IF n = 0 THEN Rep(0)
  ELSE IF n = 1 /\ a[0] < H THEN [s |-> IF neg THEN -a[0] ELSE a[0], n |-> 0, b |-> Zeros(0)]
  ELSE [s |-> IF neg THEN -1 ELSE 1, n |-> n, b |-> Part(a, 0, n)]

\* ------------------------------------------------ dangerous_make_twos_complement: length is kept, a carry out is lost
RECURSIVE TwosAt(_, _, _, _)
TwosAt(d, n, i, carry) ==
  IF i = n THEN d
  ELSE LET x == (B - 1 - d[i] + carry) % B IN TwosAt([d EXCEPT ![i] = x], n, i + 1, IF carry = 1 /\ x = 0 THEN 1 ELSE 0)
Twos(d, n) == TwosAt(d, n, 0, 1)

\* ------------------------------------------------ shifts
Parts(x) == IF x.n = 0 THEN [i \in 0 .. 0 |-> Abs(x.s)] ELSE x.b
PL(x) == IF x.n = 0 THEN 1 ELSE x.n
ShiftLeft(x, c) ==
  LET ds == c \div K  ss == c % K  xd == Parts(x)  xl == PL(x)  zl == xl + ds + 1
      z == [i \in 0 .. zl - 1 |->
              LET j == i - ds IN
              IF j < 0 THEN 0
              ELSE ((IF j < xl THEN xd[j] * 2 ^ ss ELSE 0) % B) + (IF j > 0 /\ ss > 0 THEN xd[j - 1] \div 2 ^ (K - ss) ELSE 0)] IN
    Make(z, zl, x.s < 0)
ShiftRight(x, c) ==
  LET ds == c \div K  ss == c % K  xl == PL(x)  neg == x.s < 0 IN
  IF neg /\ c >= K * xl THEN Rep(-1)
  ELSE LET xd == IF neg THEN Twos(Parts(x), xl) ELSE Parts(x)
           track == neg /\ ss = 0 /\ xd[xl - 1] = 0
           zl == Max(0, xl - ds + (IF track THEN 1 ELSE 0))
           z0 == [i \in 0 .. zl - 1 |->
                   LET j == i + ds IN
                   IF j >= xl THEN 0
                   ELSE (xd[j] \div 2 ^ ss) + (IF ss = 0 THEN 0
                        ELSE IF j = xl - 1 THEN (IF neg THEN (B - 1 - (B \div 2 ^ ss - 1)) ELSE 0)
                        ELSE (xd[j + 1] * 2 ^ (K - ss)) % B)]
           z1 == IF track THEN [z0 EXCEPT ![zl - 1] = B - 1] ELSE z0
           z == IF neg THEN Twos(z1, zl) ELSE z1 IN
         Make(z, zl, neg)

\* ------------------------------------------------ to_uint32_array and the private constructor that reads it
RECURSIVE Msb(_, _, _)
Msb(d, i, hi) == IF i > 0 /\ d[i] = hi THEN Msb(d, i - 1, hi) ELSE i
ToLimbs(x) ==                         \* <<length, limbs>>
  IF x.n = 0 /\ x.s = 0 THEN <<0, Zeros(0)>>
  ELSE LET d == IF x.n = 0 THEN [i \in 0 .. 0 |-> Word(x.s)] ELSE IF x.s = -1 THEN Twos(x.b, x.n) ELSE x.b
           hi == IF x.s < 0 THEN B - 1 ELSE 0
           m == Msb(d, PL(x) - 1, hi)
           extra == (d[m] >= H) # (hi >= H)
           n == m + 1 + (IF extra THEN 1 ELSE 0) IN
         <<n, [i \in 0 .. n - 1 |-> IF i <= m THEN d[i] ELSE hi]>>
FromLimbs(a, n0) ==
  LET neg == n0 > 0 /\ a[n0 - 1] >= H
      n == LenOf(a, n0) IN
  IF n = 0 THEN Rep(0)
  ELSE IF n = 1 THEN (IF a[0] >= H /\ ~neg THEN [s |-> 1, n |-> 1, b |-> Part(a, 0, 1)]
                      ELSE IF a[0] = H THEN Rep(-H) ELSE [s |-> IF a[0] >= H THEN a[0] - B ELSE a[0], n |-> 0, b |-> Zeros(0)])
  ELSE IF ~neg THEN [s |-> 1, n |-> n, b |-> Part(a, 0, n)]
  ELSE LET t == Twos(a, n0)  len == LenOf(t, n0) IN
    IF len = 1 /\ t[0] < H /\ t[0] > 0 THEN [s |-> -t[0], n |-> 0, b |-> Zeros(0)]
    ELSE [s |-> -1, n |-> len, b |-> Part(t, 0, len)]

\* ------------------------------------------------ and, or, xor on the encodings, the shorter one sign-extended
FAnd == 1
FOr == 2
FXor == 3
BitOf(v, i) == (v \div 2 ^ i) % 2
Fun(f, p, q) == IF f = FAnd THEN p * q ELSE IF f = FOr THEN p + q - p * q ELSE (p + q) % 2
RECURSIVE Bits(_, _, _, _)
Bits(u, v, i, f) == IF i = K THEN 0 ELSE Fun(f, BitOf(u, i), BitOf(v, i)) * 2 ^ i + Bits(u, v, i + 1, f)
Bitwise(x, y, f) ==
  IF x.n = 0 /\ y.n = 0
    THEN LET r == Bits(Word(x.s), Word(y.s), 0, f) IN Rep(IF r >= H THEN r - B ELSE r)
    ELSE LET p == ToLimbs(x)  q == ToLimbs(y)  n == Max(p[1], q[1])
             xe == IF x.s < 0 THEN B - 1 ELSE 0
             ye == IF y.s < 0 THEN B - 1 ELSE 0 IN
         FromLimbs([i \in 0 .. n - 1 |-> Bits(IF i < p[1] THEN p[2][i] ELSE xe, IF i < q[1] THEN q[2][i] ELSE ye, 0, f)], n)
And(x, y) == IF x.s = 0 \/ y.s = 0 THEN Rep(0) ELSE Bitwise(x, y, FAnd)
Or(x, y) == IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x ELSE Bitwise(x, y, FOr)
Xor(x, y) == Bitwise(x, y, FXor)

\* ------------------------------------------------ bytes
BytesOf(w) == [i \in 0 .. 3 |-> (w \div BB ^ i) % BB]
RECURSIVE NonZero(_, _)
NonZero(b, i) == IF b[i] = 0 THEN NonZero(b, i + 1) ELSE i
ToBytes(x, us) ==                     \* <<length, bytes>>, least significant first
  IF x.s = 0 THEN <<1, Zeros(1)>>
  ELSE LET neg == x.s < 0
           hb == IF neg THEN BB - 1 ELSE 0
           nz == IF neg /\ x.n > 0 THEN NonZero(x.b, 0) ELSE 0
           top == IF x.n = 0 THEN Word(x.s)
                  ELSE IF neg THEN (B - 1 - x.b[x.n - 1] + (IF x.n - 1 = nz THEN 1 ELSE 0)) ELSE x.b[x.n - 1]
           t == BytesOf(top)
           mi == IF t[3] # hb THEN 3 ELSE IF t[2] # hb THEN 2 ELSE IF t[1] # hb THEN 1 ELSE 0
           extra == (t[mi] >= BB \div 2) # (hb >= BB \div 2) /\ ~us
           n == mi + 1 + (IF extra THEN 1 ELSE 0) + (IF x.n > 0 THEN 4 * (x.n - 1) ELSE 0)
           dw(i) == IF ~neg THEN x.b[i] ELSE ((B - 1 - x.b[i]) + (IF i <= nz THEN 1 ELSE 0)) % B
           lo == IF x.n > 0 THEN 4 * (x.n - 1) ELSE 0 IN
       <<n, [k \in 0 .. n - 1 |-> IF k < lo THEN BytesOf(dw(k \div 4))[k % 4]
                                  ELSE IF k - lo <= mi THEN t[k - lo] ELSE hb]>>
\* the constructor from bytes, most significant last
RECURSIVE ByteVal(_, _, _)
ByteVal(v, i, n) == IF n = 0 THEN 0 ELSE v[i] + BB * ByteVal(v, i + 1, n - 1)
RECURSIVE Strip(_, _)
Strip(v, n) == IF n > 0 /\ v[n - 1] = 0 THEN Strip(v, n - 1) ELSE n
FromBytes(v, n0, us) ==
  LET neg == n0 > 0 /\ v[n0 - 1] >= BB \div 2 /\ ~us
      n == IF n0 > 0 /\ v[n0 - 1] = 0 THEN Strip(v, n0) ELSE n0 IN
  IF n = 0 THEN Rep(0)
  ELSE IF n <= 4
    THEN LET w == (ByteVal(v, 0, n) + (IF neg THEN B - BB ^ n ELSE 0)) % B
             s == IF w >= H THEN w - B ELSE w IN
         IF s < 0 /\ ~neg THEN [s |-> 1, n |-> 1, b |-> [i \in 0 .. 0 |-> w]]
         ELSE IF s = -H THEN Rep(-H) ELSE [s |-> s, n |-> 0, b |-> Zeros(0)]
    ELSE LET un == n % 4
             dn == n \div 4 + (IF un = 0 THEN 0 ELSE 1)
             val == [d \in 0 .. dn - 1 |->
                       IF d < n \div 4 THEN ByteVal(v, 4 * d, 4)
                       ELSE (ByteVal(v, 4 * d, un) + (IF neg THEN B - BB ^ un ELSE 0)) % B] IN
         IF ~neg THEN [s |-> 1, n |-> dn, b |-> val]
         ELSE LET t == Twos(val, dn)  len == LenOf(t, dn) IN
           IF len = 1 /\ t[0] < H THEN [s |-> -t[0], n |-> 0, b |-> Zeros(0)]
           ELSE [s |-> -1, n |-> len, b |-> Part(t, 0, len)]

\* ------------------------------------------------ get_bit_length, is_power_of_two
RECURSIVE BL(_)
BL(v) == IF v = 0 THEN 0 ELSE 1 + BL(v \div 2)
IsP2(w) == w > 0 /\ \E i \in 0 .. K - 1 : w = 2 ^ i
BitLength(x) == LET top == IF x.n = 0 THEN Abs(x.s) ELSE x.b[x.n - 1]
                    bl == K * PL(x) - Zlc(top) IN
  IF x.s >= 0 \/ ~IsP2(top) \/ (\E i \in 0 .. x.n - 2 : x.b[i] # 0) THEN bl ELSE bl - 1

\* ------------------------------------------------ the machine: two numbers and a count; what every operation makes of them
CONSTANT Mode                          \* "one" number with every count, or a "pair" of numbers
VARIABLES a, b, c
vars == <<a, b, c>>
All == -LIM .. LIM
Init == IF Mode = "pair" THEN a \in All /\ b \in All /\ c = 0
        ELSE a \in All /\ b = 0 /\ c \in 0 .. SH
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Floor(p, q) == p \div q
Is(x, v) == Canonical(x) /\ Num(x) = v
RECURSIVE WholeBits(_, _, _, _)
\* bit by bit on numbers, both wide enough to end in copies of their sign bits
WholeBits(u, v, n, f) == IF n = 0 THEN -Fun(f, u % 2, v % 2) ELSE Fun(f, u % 2, v % 2) + 2 * WholeBits(u \div 2, v \div 2, n - 1, f)
Shifts == Mode = "one" => Is(ShiftLeft(Rep(a), c), a * 2 ^ c) /\ Is(ShiftRight(Rep(a), c), a \div 2 ^ c)
BitwiseOps == Mode = "pair" =>
  /\ Is(And(Rep(a), Rep(b)), WholeBits(a, b, K * N + 1, FAnd))
  /\ Is(Or(Rep(a), Rep(b)), WholeBits(a, b, K * N + 1, FOr))
  /\ Is(Xor(Rep(a), Rep(b)), WholeBits(a, b, K * N + 1, FXor))
\* encodings are shortest and read back; with c surplus sign bytes or limbs too
TcBytes(v, n) == v >= -(BB ^ n) \div 2 /\ v < BB ^ n \div 2
Encodings == (Mode = "one" /\ c <= 9) =>
  LET x == Rep(a)  e == ToBytes(x, FALSE)  w == ToLimbs(x)  pad == IF a < 0 THEN BB - 1 ELSE 0 IN
  /\ ByteVal(e[2], 0, e[1]) = a % BB ^ e[1] /\ TcBytes(a, e[1]) /\ (e[1] > 1 => ~TcBytes(a, e[1] - 1))
  /\ Is(FromBytes([k \in 0 .. e[1] + c - 1 |-> IF k < e[1] THEN e[2][k] ELSE pad], e[1] + c, FALSE), a)
  /\ ValN(w[2], w[1]) = a % B ^ w[1]
  /\ (a # 0 => (a >= -(B ^ w[1]) \div 2 /\ a < B ^ w[1] \div 2) /\ (w[1] > 1 => ~(a >= -(B ^ (w[1] - 1)) \div 2 /\ a < B ^ (w[1] - 1) \div 2)))
  /\ Is(FromLimbs(w[2], w[1]), a)
  /\ (a >= 0 => LET u == ToBytes(x, TRUE) IN
        /\ ByteVal(u[2], 0, u[1]) = a /\ (u[1] > 1 => a >= BB ^ (u[1] - 1))
        /\ Is(FromBytes([k \in 0 .. u[1] + c - 1 |-> IF k < u[1] THEN u[2][k] ELSE 0], u[1] + c, TRUE), a))
Lengths == Mode = "one" => BitLength(Rep(a)) = (IF a >= 0 THEN BL(a) ELSE BL(-a - 1))
Numbers == Is(Rep(a), a)
=============================================================================
