------------------------------- MODULE AddSub -------------------------------
(* Addition, subtraction and comparison: the carry and borrow loops over limbs (with the carry as a signed double word)
   and the dispatch on signs, lengths and the inline representation above them. *)
EXTENDS Limbs
CONSTANTS LIM
VARIABLES a, b
H == B \div 2
RECURSIVE NL(_)
NL(v) == IF v = 0 THEN 0 ELSE 1 + NL(v \div B)
Rep(v) == IF Abs(v) < H THEN [s |-> v, n |-> 0, b |-> Zeros(0)]
          ELSE [s |-> IF v < 0 THEN -1 ELSE 1, n |-> NL(Abs(v)), b |-> OfVal(Abs(v), NL(Abs(v)))]
Num(x) == IF x.n = 0 THEN x.s ELSE x.s * ValN(x.b, x.n)
Canonical(x) == IF x.n = 0 THEN x.s > -H /\ x.s < H
                ELSE x.s \in {-1, 1} /\ x.b[x.n - 1] # 0 /\ (x.n > 1 \/ x.b[0] >= H)
Make(z, n0, neg) == LET n == LenOf(z, n0) IN
  IF n = 0 THEN Rep(0)
  ELSE IF n = 1 /\ z[0] < H THEN [s |-> IF neg THEN -z[0] ELSE z[0], n |-> 0, b |-> Zeros(0)]
  ELSE [s |-> IF neg THEN -1 ELSE 1, n |-> n, b |-> Part(z, 0, n)]
\* z = x + t * y over n limbs, y of m limbs, t = 1 or -1; the carry out is given too
RECURSIVE Run(_, _, _, _, _, _, _)
Run(z, x, n, y, m, t, s) ==
  IF s[1] = n THEN <<z, s[2]>>
  ELSE LET d == x[s[1]] + s[2] + t * (IF s[1] < m THEN y[s[1]] ELSE 0) IN
    Run([z EXCEPT ![s[1]] = d % B], x, n, y, m, t, <<s[1] + 1, d \div B>>)
AddArr(x, n, y, m) == LET p == Run(Zeros(n + 1), x, n, y, m, 1, <<0, 0>>) IN [p[1] EXCEPT ![n] = p[2]]
SubArr(x, n, y, m) == LET p == Run(Zeros(n), x, n, y, m, -1, <<0, 0>>) IN IF Assert(p[2] = 0, "borrow out") THEN p[1] ELSE p[1]
RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, k) == IF k < 0 THEN 0 ELSE IF x[k] < y[k] THEN -1 ELSE IF x[k] > y[k] THEN 1 ELSE CmpFrom(x, y, k - 1)
CmpArr(x, n, y, m) == IF n < m THEN -1 ELSE IF n > m THEN 1 ELSE CmpFrom(x, y, n - 1)
One(w) == [k \in 0 .. 0 |-> w]
\* add(bits, sign, bits, sign) and subtract(bits, sign, bits, sign)
AddM(x, y, ys) ==
  IF x.n = 0 /\ y.n = 0 THEN Rep(x.s + ys)
  ELSE IF x.n = 0 THEN Make(AddArr(y.b, y.n, One(Abs(x.s)), 1), y.n + 1, x.s < 0)
  ELSE IF y.n = 0 THEN Make(AddArr(x.b, x.n, One(Abs(ys)), 1), x.n + 1, x.s < 0)
  ELSE IF x.n < y.n THEN Make(AddArr(y.b, y.n, x.b, x.n), y.n + 1, x.s < 0)
  ELSE Make(AddArr(x.b, x.n, y.b, y.n), x.n + 1, x.s < 0)
SubM(x, y, ys) ==
  IF x.n = 0 /\ y.n = 0 THEN Rep(x.s - ys)
  ELSE IF x.n = 0 THEN Make(SubArr(y.b, y.n, One(Abs(x.s)), 1), y.n, x.s >= 0)
  ELSE IF y.n = 0 THEN Make(SubArr(x.b, x.n, One(Abs(ys)), 1), x.n, x.s < 0)
  ELSE IF CmpArr(x.b, x.n, y.b, y.n) < 0 THEN Make(SubArr(y.b, y.n, x.b, x.n), y.n, x.s >= 0)
  ELSE Make(SubArr(x.b, x.n, y.b, y.n), x.n, x.s < 0)
Plus(x, y) == IF (x.s < 0) # (y.s < 0) THEN SubM(x, y, -y.s) ELSE AddM(x, y, y.s)
Minus(x, y) == IF (x.s < 0) # (y.s < 0) THEN AddM(x, y, -y.s) ELSE SubM(x, y, y.s)
Compare(x, y) ==
  IF (x.s < 0) # (y.s < 0) THEN (IF x.s < 0 THEN -1 ELSE 1)
  ELSE IF x.n = 0 THEN (IF y.n = 0 THEN (IF x.s < y.s THEN -1 ELSE IF x.s > y.s THEN 1 ELSE 0) ELSE -y.s)
  ELSE IF y.n = 0 \/ x.n > y.n THEN x.s
  ELSE IF x.n < y.n THEN -x.s
  ELSE LET d == CmpFrom(x.b, y.b, x.n - 1) IN IF d = 0 THEN 0 ELSE IF d < 0 THEN -x.s ELSE x.s
Init == a \in -LIM .. LIM /\ b \in -LIM .. LIM
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Is(x, v) == Canonical(x) /\ Num(x) = v
Sums == Is(Plus(Rep(a), Rep(b)), a + b) /\ Is(Minus(Rep(a), Rep(b)), a - b)
Order == LET r == Compare(Rep(a), Rep(b)) IN (r < 0) = (a < b) /\ (r = 0) = (a = b)
=============================================================================
