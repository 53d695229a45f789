-------------------------------- MODULE Mul --------------------------------
(* BigIntegerCalculator::multiply and ::square: the schoolbook loops with their double-limb digits (the square's
   with the carry split over two words, since the doubled product does not fit one), and the recursive split in
   three with its folds, the two-in-one subtraction and the in-place merge. T stands for both length thresholds;
   T = 4 is the least for which the recursion shrinks. Arrays are functions 0 .. n - 1 -> Limb. *)
EXTENDS Limbs
CONSTANTS T, LL, LR
DW == B * B
Word(d) == Assert(d >= 0 /\ d < DW, <<"double limb overflows", d>>)
\* (base 2 leaves no room for a borrow of two in a double limb; every larger base does)
SHalf == Max(DW \div 2, 4)
SWord(d) == Assert(d >= -SHalf /\ d < SHalf, <<"signed double limb overflows", d>>)

\* one row of the schoolbook method: bits += left * r at offset i
RECURSIVE Row(_, _, _, _, _, _, _)
Row(z, l, nl, r, i, j, carry) ==
  IF j = nl THEN [z EXCEPT ![i + nl] = carry]
  ELSE LET d == z[i + j] + carry + l[j] * r IN
    IF Word(d) THEN Row([z EXCEPT ![i + j] = d % B], l, nl, r, i, j + 1, d \div B) ELSE z
RECURSIVE School(_, _, _, _, _, _)
School(z, l, nl, r, nr, i) == IF i = nr THEN z ELSE School(Row(z, l, nl, r[i], i, 0, 0), l, nl, r, nr, i + 1)
\* the square: rows of the lower triangle, doubled
RECURSIVE SqRow(_, _, _, _, _)
SqRow(z, v, i, j, carry) ==
  IF j = i
    THEN LET d == v[i] * v[i] + carry IN IF Word(d) THEN [z EXCEPT ![2 * i] = d % B, ![2 * i + 1] = d \div B] ELSE z
    ELSE LET d1 == z[i + j] + carry  d2 == v[j] * v[i] IN
      IF Word(d1) /\ Word(d2 + d1 \div 2)
        THEN SqRow([z EXCEPT ![i + j] = ((d1 + 2 * d2) % DW) % B], v, i, j + 1, (d2 + d1 \div 2) \div (B \div 2)) ELSE z
RECURSIVE SqSchool(_, _, _, _)
SqSchool(z, v, n, i) == IF i = n THEN z ELSE SqSchool(SqRow(z, v, i, 0, 0), v, n, i + 1)

Put(z, at, w, n) == [k \in DOMAIN z |-> IF k >= at /\ k < at + n THEN w[k - at] ELSE z[k]]
\* add: one limb longer than the longer operand
Add(x, nx, y, ny) == OfVal(ValN(x, nx) + ValN(y, ny), nx + 1)
\* subtract_core: core - lhs - rhs in one run, with a carry of more than one bit
RECURSIVE SubCore(_, _, _, _, _, _, _)
SubCore(c, nc, l, nl, r, nr, s) ==        \* s = <<i, carry>>
  LET i == s[1] IN
  IF i < nl
    THEN LET d == c[i] + s[2] - l[i] - (IF i < nr THEN r[i] ELSE 0) IN
      IF SWord(d) THEN SubCore([c EXCEPT ![i] = d % B], nc, l, nl, r, nr, <<i + 1, d \div B>>) ELSE c
    ELSE IF s[2] # 0 /\ i < nc
      THEN LET d == c[i] + s[2] IN SubCore([c EXCEPT ![i] = d % B], nc, l, nl, r, nr, <<i + 1, d \div B>>)
      ELSE IF Assert(s[2] = 0, "subtract_core leaves a carry") THEN c ELSE c
\* add_self at an offset; the carry dies inside the array
RECURSIVE AddSelf(_, _, _, _, _, _)
AddSelf(z, at, nz, w, nw, s) ==
  LET i == s[1] IN
  IF i < nw \/ (s[2] # 0 /\ i < nz)
    THEN LET d == z[at + i] + s[2] + (IF i < nw THEN w[i] ELSE 0) IN
      AddSelf([z EXCEPT ![at + i] = d % B], at, nz, w, nw, <<i + 1, d \div B>>)
    ELSE IF Assert(s[2] = 0, "add_self leaves a carry") THEN z ELSE z

RECURSIVE Multiply(_, _, _, _)
Multiply(l, nl, r, nr) ==
  IF nr < T THEN School(Zeros(nl + nr), l, nl, r, nr, 0)
  ELSE LET n == nr \div 2
           lo == Multiply(Part(l, 0, n), n, Part(r, 0, n), n)
           hi == Multiply(Part(l, n, nl - n), nl - n, Part(r, n, nr - n), nr - n)
           nh == nl + nr - 2 * n
           lf == Add(Part(l, n, nl - n), nl - n, Part(l, 0, n), n)
           rf == Add(Part(r, n, nr - n), nr - n, Part(r, 0, n), n)
           nc == nl - n + nr - n + 2
           core == SubCore(Multiply(lf, nl - n + 1, rf, nr - n + 1), nc, hi, nh, lo, 2 * n, <<0, 0>>)
           z == [k \in 0 .. nl + nr - 1 |-> IF k < 2 * n THEN lo[k] ELSE hi[k - 2 * n]] IN
       AddSelf(z, n, nl + nr - n, core, nc, <<0, 0>>)
RECURSIVE Square(_, _)
Square(v, nv) ==
  IF nv < T THEN SqSchool(Zeros(2 * nv), v, nv, 0)
  ELSE LET n == nv \div 2
           lo == Square(Part(v, 0, n), n)
           hi == Square(Part(v, n, nv - n), nv - n)
           nh == 2 * nv - 2 * n
           f == Add(Part(v, n, nv - n), nv - n, Part(v, 0, n), n)
           nc == 2 * (nv - n + 1)
           core == SubCore(Square(f, nv - n + 1), nc, hi, nh, lo, 2 * n, <<0, 0>>)
           z == [k \in 0 .. 2 * nv - 1 |-> IF k < 2 * n THEN lo[k] ELSE hi[k - 2 * n]] IN
       AddSelf(z, n, 2 * nv - n, core, nc, <<0, 0>>)

\* the machine: an operand pair; what the two methods make of it. Lengths vary, leading zeros included.
VARIABLES nl, nr, l, r
vars == <<nl, nr, l, r>>
Init == nl \in 1 .. LL /\ nr \in 1 .. LR /\ nr <= nl /\ l \in Arr(nl) /\ r \in Arr(nr)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Product == LET z == Multiply(l, nl, r, nr) IN ValN(z, nl + nr) = ValN(l, nl) * ValN(r, nr)
Squared == (nr = 1 /\ r[0] = 0) => ValN(Square(l, nl), 2 * nl) = ValN(l, nl) * ValN(l, nl)
=============================================================================
