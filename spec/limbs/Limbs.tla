------------------------------- MODULE Limbs -------------------------------
(* Numbers as arrays of limbs, least significant first, over a small base: what the
   implementation's inner loops do, step by step. The base is 2^K; the implementation
   has K = 32. An array of n limbs is a function on 0 .. n - 1.
   All algorithms of this directory keep the implementation's structure (same loops,
   same guards, same widths relative to the limb), so a flaw of the algorithm shows at
   a small base, where TLC can try every operand. *)
EXTENDS Integers, Sequences, TLC
CONSTANT K
B == 2 ^ K
Limb == 0 .. B - 1
Arr(n) == [0 .. n - 1 -> Limb]
Size(x) == IF DOMAIN x = {} THEN 0 ELSE CHOOSE n \in 1 .. 64 : DOMAIN x = 0 .. n - 1
RECURSIVE ValN(_, _)
ValN(x, n) == IF n = 0 THEN 0 ELSE ValN(x, n - 1) + x[n - 1] * B ^ (n - 1)
Val(x) == ValN(x, Size(x))
Top(n) == {x \in Arr(n) : x[n - 1] # 0}                  \* no leading zero limb
UpTo(n) == UNION {Top(m) : m \in 1 .. n}
Zeros(n) == [i \in 0 .. n - 1 |-> 0]
OfVal(v, n) == [i \in 0 .. n - 1 |-> (v \div B ^ i) % B]
RECURSIVE LenOf(_, _)
LenOf(x, n) == IF n > 0 /\ x[n - 1] = 0 THEN LenOf(x, n - 1) ELSE n      \* actual_length
\* part of x from i on, n limbs
Part(x, i, n) == [j \in 0 .. n - 1 |-> x[i + j]]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Abs(a) == IF a < 0 THEN -a ELSE a
\* arithmetic right shift of a (possibly negative) machine word
Asr(a, n) == a \div (2 ^ n)
Zlc(d) == CHOOSE z \in 0 .. K : (IF d = 0 THEN z = K ELSE d * 2 ^ z < B /\ d * 2 ^ z >= B \div 2)
\* print one witness for every value of w seen (per worker)
Seen(w, what) == IF w \in TLCGet(1) THEN TRUE ELSE TLCSet(1, TLCGet(1) \cup {w}) /\ PrintT(<<"WITNESS", w, what>>)
=============================================================================
