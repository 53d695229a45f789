-------------------------------- MODULE Text --------------------------------
(* to_string and parse. to_string: limbs to base D groups (here D = 10^G, in the implementation 10^9) by one
   multiplication pass per limb into a buffer of 10 n / 9 + 2 groups, then characters from the right into a buffer of
   G per group and one for the sign. parse: sign, then value * 10 + digit until something that is no digit.
   One transition of the conversion = one source limb. *)
EXTENDS Limbs
CONSTANTS G, N
D == 10 ^ G
VARIABLES v, src, dst, used, i, ok
vars == <<v, src, dst, used, i, ok>>
RECURSIVE NL(_)
NL(x) == IF x = 0 THEN 0 ELSE 1 + NL(x \div B)
Cap(n) == (n * 10) \div 9 + 2
Init == /\ v \in B \div 2 .. B ^ N - 1
        /\ src = OfVal(v, NL(v)) /\ dst = Zeros(Cap(NL(v))) /\ used = 0 /\ i = NL(v) /\ ok = TRUE
RECURSIVE Pass(_, _, _, _)
Pass(d, n, j, carry) == IF j = n THEN <<d, carry>>
  ELSE LET w == d[j] * B + carry IN Pass([d EXCEPT ![j] = w % D], n, j + 1, w \div D)
Step == /\ i > 0
        /\ LET p == Pass(dst, used, 0, src[i - 1])  c == p[2]
               add == IF c = 0 THEN 0 ELSE IF c \div D = 0 THEN 1 ELSE 2 IN
             /\ ok' = (ok /\ c < B /\ c \div D < D /\ used + add <= Cap(NL(v)))
             /\ used' = used + add
             /\ dst' = [k \in DOMAIN dst |-> IF add > 0 /\ k = used THEN c % D ELSE IF add = 2 /\ k = used + 1 THEN c \div D ELSE p[1][k]]
        /\ i' = i - 1 /\ UNCHANGED <<v, src>>
Next == Step
Spec == Init /\ [][Next]_vars
RECURSIVE DVal(_, _)
DVal(d, n) == IF n = 0 THEN 0 ELSE DVal(d, n - 1) + d[n - 1] * D ^ (n - 1)
\* the groups hold the limbs consumed so far, each below D, within the buffer, the last one not zero
Holds == /\ ok /\ DVal(dst, used) = v \div B ^ i
         /\ \A k \in 0 .. used - 1 : dst[k] < D
         /\ (used > 0 => dst[used - 1] # 0)
\* characters: all groups but the last padded to G digits, the last without leading zeros
RECURSIVE Digits(_, _)
Digits(x, n) == IF n = 0 THEN <<>> ELSE Append(Digits(x \div 10, n - 1), x % 10)
RECURSIVE Short(_)
Short(x) == IF x = 0 THEN <<>> ELSE Append(Short(x \div 10), x % 10)
RECURSIVE Chars(_)
Chars(k) == IF k = used - 1 THEN Short(dst[k]) ELSE Chars(k + 1) \o Digits(dst[k], G)
RECURSIVE Parse(_, _)
Parse(s, acc) == IF s = <<>> \/ Head(s) \notin 0 .. 9 THEN acc ELSE Parse(Tail(s), acc * 10 + Head(s))
\* the text is the shortest decimal text, fits its buffer, and reads back, also with zeros before and other characters after it
Result == i = 0 =>
  LET s == Chars(0) IN
  /\ s = Short(v) /\ Len(s) <= used * G
  /\ Parse(s, 0) = v /\ Parse(<<0, 0>> \o s, 0) = v /\ Parse(s \o <<10, 5>>, 0) = v
=============================================================================
