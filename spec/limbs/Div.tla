-------------------------------- MODULE Div --------------------------------
(* BigIntegerCalculator::divide: schoolbook division with the quotient digit guessed from
   the two leading limbs of the shifted divisor, corrected by the third limb, and repaired
   by adding the divisor back. *)
EXTENDS Limbs
CONSTANTS LA, LB
(* --algorithm Div
variables lb \in 1 .. LB, b \in Top(lb), a0 \in Arr(LA), a = a0, q = Zeros(LA - lb + 1), i = LA, path = <<>>;
define
  shift == Zlc(b[lb - 1])
  back == K - shift
  d1 == IF lb > 1 THEN b[lb - 2] ELSE 0
  d2 == IF lb > 2 THEN b[lb - 3] ELSE 0
  Shl(h, l) == ((h * 2 ^ shift) % B) + (IF shift > 0 THEN l \div 2 ^ back ELSE 0)
  divHi == Shl(b[lb - 1], d1)
  divLo == Shl(d1, d2)
  At(j) == IF j >= 0 /\ j < LA THEN a[j] ELSE 0
  t == At(i)
  valHi0 == t * B + At(i - 1)
  valHi == ((valHi0 * 2 ^ shift) % (B * B)) + (IF shift > 0 THEN At(i - 2) \div 2 ^ back ELSE 0)
  valLo == Shl(At(i - 2), At(i - 3))
  TooBig(g) == LET hi == divHi * g + (divLo * g) \div B  vh == valHi IN
                 IF hi < vh THEN FALSE ELSE IF hi > vh THEN TRUE ELSE (divLo * g) % B > valLo
  Guess == Min(valHi \div divHi, B - 1)
  RECURSIVE Down(_)
  Down(g) == IF TooBig(g) THEN Down(g - 1) ELSE g
  Corrected == Down(Guess)
  \* subtract_divisor: returns <<array, carry>>
  Sub[j \in 0 .. LB, g \in 0 .. B - 1] == IF j = 0 THEN <<a, 0>> ELSE
      LET p == Sub[j - 1, g]  x == p[1]  c == p[2] + b[j - 1] * g  d == c % B  k == i - lb + j - 1 IN
        <<[x EXCEPT ![k] = (x[k] - d) % B], c \div B + (IF x[k] < d THEN 1 ELSE 0)>>
end define;
macro Digit(g) begin q[i - lb] := g; end macro;
begin
Loop:
  while i >= lb do
    with g = Corrected, s = (IF g > 0 THEN Sub[lb, g] ELSE <<a, 0>>) do
      if g > 0 /\ s[2] # t then
        assert s[2] = t + 1;
        \* add_divisor on the limbs i - lb .. i - 1
        with v = Val(Part(s[1], i - lb, lb)) + Val(b) do
          assert v \div B ^ lb = 1;
          a := [j \in 0 .. LA - 1 |-> IF j = i THEN 0 ELSE IF j >= i - lb /\ j < i THEN (v \div B ^ (j - i + lb)) % B ELSE s[1][j]];
        end with;
        q[i - lb] := g - 1;
        path := Append(path, <<valHi \div divHi >= B, Guess - g, 1>>);
      else
        a := [j \in 0 .. LA - 1 |-> IF j = i THEN 0 ELSE s[1][j]];
        q[i - lb] := g;
        path := Append(path, <<valHi \div divHi >= B, Guess - g, 0>>);
      end if;
    end with;
    i := i - 1;
  end while;
Fin: skip;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "de23343c" /\ chksum(tla) = "bb6e619b")
VARIABLES pc, lb, b, a0, a, q, i, path

(* define statement *)
shift == Zlc(b[lb - 1])
back == K - shift
d1 == IF lb > 1 THEN b[lb - 2] ELSE 0
d2 == IF lb > 2 THEN b[lb - 3] ELSE 0
Shl(h, l) == ((h * 2 ^ shift) % B) + (IF shift > 0 THEN l \div 2 ^ back ELSE 0)
divHi == Shl(b[lb - 1], d1)
divLo == Shl(d1, d2)
At(j) == IF j >= 0 /\ j < LA THEN a[j] ELSE 0
t == At(i)
valHi0 == t * B + At(i - 1)
valHi == ((valHi0 * 2 ^ shift) % (B * B)) + (IF shift > 0 THEN At(i - 2) \div 2 ^ back ELSE 0)
valLo == Shl(At(i - 2), At(i - 3))
TooBig(g) == LET hi == divHi * g + (divLo * g) \div B  vh == valHi IN
               IF hi < vh THEN FALSE ELSE IF hi > vh THEN TRUE ELSE (divLo * g) % B > valLo
Guess == Min(valHi \div divHi, B - 1)
RECURSIVE Down(_)
Down(g) == IF TooBig(g) THEN Down(g - 1) ELSE g
Corrected == Down(Guess)

Sub[j \in 0 .. LB, g \in 0 .. B - 1] == IF j = 0 THEN <<a, 0>> ELSE
    LET p == Sub[j - 1, g]  x == p[1]  c == p[2] + b[j - 1] * g  d == c % B  k == i - lb + j - 1 IN
      <<[x EXCEPT ![k] = (x[k] - d) % B], c \div B + (IF x[k] < d THEN 1 ELSE 0)>>


vars == << pc, lb, b, a0, a, q, i, path >>

Init == (* Global variables *)
        /\ lb \in 1 .. LB
        /\ b \in Top(lb)
        /\ a0 \in Arr(LA)
        /\ a = a0
        /\ q = Zeros(LA - lb + 1)
        /\ i = LA
        /\ path = <<>>
        /\ pc = "Loop"

Loop == /\ pc = "Loop"
        /\ IF i >= lb
              THEN /\ LET g == Corrected IN
                        LET s == (IF g > 0 THEN Sub[lb, g] ELSE <<a, 0>>) IN
                          IF g > 0 /\ s[2] # t
                             THEN /\ Assert(s[2] = t + 1, 
                                            "Failure of assertion at line 39, column 9.")
                                  /\ LET v == Val(Part(s[1], i - lb, lb)) + Val(b) IN
                                       /\ Assert(v \div B ^ lb = 1, 
                                                 "Failure of assertion at line 42, column 11.")
                                       /\ a' = [j \in 0 .. LA - 1 |-> IF j = i THEN 0 ELSE IF j >= i - lb /\ j < i THEN (v \div B ^ (j - i + lb)) % B ELSE s[1][j]]
                                  /\ q' = [q EXCEPT ![i - lb] = g - 1]
                                  /\ path' = Append(path, <<valHi \div divHi >= B, Guess - g, 1>>)
                             ELSE /\ a' = [j \in 0 .. LA - 1 |-> IF j = i THEN 0 ELSE s[1][j]]
                                  /\ q' = [q EXCEPT ![i - lb] = g]
                                  /\ path' = Append(path, <<valHi \div divHi >= B, Guess - g, 0>>)
                   /\ i' = i - 1
                   /\ pc' = "Loop"
              ELSE /\ pc' = "Fin"
                   /\ UNCHANGED << a, q, i, path >>
        /\ UNCHANGED << lb, b, a0 >>

Fin == /\ pc = "Fin"
       /\ TRUE
       /\ pc' = "Done"
       /\ UNCHANGED << lb, b, a0, a, q, i, path >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == Loop \/ Fin
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(pc = "Done")

\* END TRANSLATION 
 
\* the dividend is what has been divided so far times the divisor, plus the rest; the rest is below the divisor at the current place
Rest == ValN(a0, LA) = ValN(q, LA - lb + 1) * ValN(b, lb) + ValN(a, LA) /\ (i < LA => ValN(a, LA) < ValN(b, lb) * B ^ (i - lb + 1))
Result == pc = "Done" => ValN(q, LA - lb + 1) = ValN(a0, LA) \div ValN(b, lb) /\ ValN(a, LA) = ValN(a0, LA) % ValN(b, lb)
\* two corrections at most, as Knuth's theorem B says
Knuth == \A k \in DOMAIN path : path[k][2] <= 2
ASSUME TLCSet(1, {})
Witness == pc = "Done" => Seen(path, <<a0, b>>)
=============================================================================
