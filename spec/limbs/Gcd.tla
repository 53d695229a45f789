-------------------------------- MODULE Gcd --------------------------------
(* BigIntegerCalculator::gcd(BitsBuffer, BitsBuffer): Lehmer's algorithm with Jebelean's condition on
   double-limb leading parts; lehmer_core limb by limb with signed double-limb intermediates.
   One transition of the machine = one turn of the outer loop. *)
EXTENDS Limbs
CONSTANTS LX, LY
VARIABLES x, y, g, done, turns
vars == <<x, y, g, done, turns>>
RECURSIVE Gcd0(_, _)
Gcd0(a, b) == IF b = 0 THEN a ELSE Gcd0(b, a % b)
RECURSIVE NL(_)
NL(v) == IF v = 0 THEN 0 ELSE 1 + NL(v \div B)                  \* limbs of a value
DW == B * B                                                      \* a double-limb word
Limbi(v, i) == IF i < 0 THEN 0 ELSE (v \div B ^ i) % B

\* extract_digits: the leading two limbs less one bit, aligned on x
Ext(h, m, l, z) == ((((h * 2 ^ (K + z)) % DW) + ((m * 2 ^ z) % DW) + (l \div 2 ^ (K - z))) % DW) \div 2
Digits(u, v) == LET n == NL(u)  d == n - NL(v)  z == Zlc(Limbi(u, n - 1)) IN
  <<Ext(Limbi(u, n - 1), Limbi(u, n - 2), Limbi(u, n - 3), z),
    CASE d = 0 -> Ext(Limbi(v, n - 1), Limbi(v, n - 2), Limbi(v, n - 3), z)
      [] d = 1 -> Ext(0, Limbi(v, n - 2), Limbi(v, n - 3), z)
      [] d = 2 -> Ext(0, 0, Limbi(v, n - 3), z)
      [] OTHER -> 0>>

\* the guessing loop: <<a, b, c, d, iterations>>; unsigned words wrap as in the code
W2(v) == v % DW
RECURSIVE Guess(_, _, _, _, _, _, _)
Odd(p, q, a, b, c, d, n) ==
  LET k == p \div q  r == a + k * c  s == b + k * d  t == p - k * q IN
    IF k > B - 1 \/ r > B \div 2 - 1 \/ s > B \div 2 - 1 \/ t < s \/ t + r > W2(q - c)
      THEN [ok |-> FALSE] ELSE [ok |-> TRUE, a |-> r, b |-> s, p |-> t]
Even(p, q, a, b, c, d, n) ==
  LET k == q \div p  r == d + k * b  s == c + k * a  t == q - k * p IN
    IF k > B - 1 \/ r > B \div 2 - 1 \/ s > B \div 2 - 1 \/ t < s \/ t + r > W2(p - b)
      THEN [ok |-> FALSE] ELSE [ok |-> TRUE, d |-> r, c |-> s, q |-> t]
Guess(p, q, a, b, c, d, n) ==
  IF q = 0 THEN <<a, b, c, d, n>>
  ELSE LET o == Odd(p, q, a, b, c, d, n) IN
    IF ~o.ok THEN <<a, b, c, d, n>>
    ELSE IF o.p = o.b THEN <<o.a, o.b, c, d, n + 1>>
    ELSE LET e == Even(o.p, q, o.a, o.b, c, d, n + 1) IN
      IF ~e.ok THEN <<o.a, o.b, c, d, n + 1>>
      ELSE IF e.q = e.c THEN <<o.a, o.b, e.c, e.d, n + 2>>
      ELSE Guess(o.p, e.q, o.a, o.b, e.c, e.d, n + 2)

\* lehmer_core over the limbs of y; the intermediate digits fit a signed double word
InWord(d) == Assert(d >= -(DW \div 2) /\ d < DW \div 2, <<"digit out of range", d>>)
RECURSIVE Core(_, _, _, _, _, _, _)
Core(u, v, p, q, i, n, cy) == IF i = n THEN <<0, cy>> ELSE
  LET d == p * Limbi(u, i) - q * Limbi(v, i) + cy
      rest == Core(u, v, p, q, i + 1, n, d \div B) IN
    IF InWord(d) THEN <<(d % B) + B * rest[1], rest[2]>> ELSE <<0, 0>>

Sorted(p) == IF p[1] >= p[2] THEN p ELSE <<p[2], p[1]>>
Init == /\ x \in 0 .. B ^ LX - 1 /\ y \in 0 .. B ^ LY - 1 /\ x >= y /\ NL(y) >= 2
        /\ g = Gcd0(x, y) /\ done = FALSE /\ turns = <<>>
Euclid(kind) == /\ x' = y /\ y' = x % y /\ turns' = Append(turns, kind)
Turn == /\ ~done /\ NL(y) > 2
        /\ LET dd == Digits(x, y)  m == Guess(dd[1], dd[2], 1, 0, 0, 1, 0) IN
             /\ Assert(dd[1] >= dd[2], "leading parts are ordered")
             /\ IF m[2] = 0 THEN Euclid(0)
                ELSE LET n == NL(y)
                         u == Core(x, y, m[1], m[2], 0, n, 0)
                         v == Core(y, x, m[4], m[3], 0, n, 0) IN
                  \* what is dropped: the carries, and the limbs of x beyond those of y
                  /\ Assert(u[1] = m[1] * x - m[2] * y /\ v[1] = m[4] * y - m[3] * x, <<"step is not exact", x, y, m>>)
                  /\ x' = (IF m[5] % 2 = 1 THEN v[1] ELSE u[1])
                  /\ y' = (IF m[5] % 2 = 1 THEN u[1] ELSE v[1])
                  /\ turns' = Append(turns, m[5])
        /\ UNCHANGED <<g, done>>
Last == /\ ~done /\ NL(y) <= 2
        /\ x' = (IF y > 0 THEN Gcd0(y, x % y) ELSE x) /\ y' = 0 /\ done' = TRUE /\ UNCHANGED <<g, turns>>
Next == Turn \/ Last
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the outer loop keeps the greatest common divisor, the order of the operands, and shrinks them
Keeps == x >= y /\ y >= 0 /\ Gcd0(x, y) = g
Result == done => x = g
Progress == [][done' \/ (x' <= x /\ y' < y)]_vars
Terminates == <>done
Shape == Len(turns) <= LX * K
ASSUME TLCSet(1, {})
Witness == done => Seen(turns, <<turns>>)
=============================================================================
