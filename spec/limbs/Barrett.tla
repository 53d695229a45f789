------------------------------ MODULE Barrett ------------------------------
(* mod_pow with FastReducer: Barrett reduction as coded (DivMul twice, SubMod on k + 1 limbs with a
   wrapping subtraction), inside the loops of pow_core over the limbs and bits of the exponent.
   One transition = one bit of the exponent; Reduce is checked at each one against its contract. *)
EXTENDS Limbs
CONSTANTS KL, XL            \* limbs of the modulus, of the exponent
VARIABLES m, v0, e, value, result, bit, worst
vars == <<m, v0, e, value, result, bit, worst>>
RECURSIVE NL(_)
NL(v) == IF v = 0 THEN 0 ELSE 1 + NL(v \div B)
KK == KL
Mu(mm) == B ^ (2 * KK) \div mm
\* DivMul: the part of `left` above limb k, times `right`; 0 when there is none; the product fits its buffer
DivMul(left, right, size, k) ==
  IF NL(left) > k
    THEN LET p == (left \div B ^ k) * right IN IF Assert(NL(left) - k + NL(right) <= size, "buffer") THEN p ELSE 0
    ELSE 0
\* SubMod: both cut to k limbs, subtracted modulo the length of the left one, then at most a few subtractions
SubMod(left, right, mm, k) ==
  LET ll == Min(NL(left), k)
      l == left % B ^ ll
      r == right % B ^ Min(NL(right), k)
      d == (l - r) % B ^ ll IN
    IF Assert(NL(left) > k \/ r <= l, "wraps only when cut") THEN d ELSE 0
Reduce(v, mm) ==
  IF NL(v) < KK THEN <<v, 0>>
  ELSE LET q1 == DivMul(v, Mu(mm), 2 * KK + 3, KK - 1)
           q2 == DivMul(q1, mm, 2 * KK + 2, KK + 1)
           d == SubMod(v, q2, mm, KK + 1) IN <<d % mm, d \div mm>>     \* the while loop of SubMod: d \div mm turns
RECURSIVE PowMod(_, _, _)
PowMod(b, n, mm) == IF n = 0 THEN 1 % mm ELSE LET h == PowMod(b, n \div 2, mm) IN (h * h * (IF n % 2 = 1 THEN b ELSE 1)) % mm
\* pow_core(power array): every bit of the lower limbs, the top limb only up to its leading one
LowBits == K * Max(0, NL(e) - 1)
Init == /\ m \in B ^ (KL - 1) .. B ^ KL - 1 /\ m > 0
        /\ v0 \in {v \in 0 .. B ^ KL - 1 : TRUE} /\ e \in 1 .. B ^ XL - 1
        /\ value = v0 /\ result = 1 /\ bit = 0 /\ worst = 0
Bit == /\ e \div 2 ^ bit # 0
       /\ LET top == bit >= LowBits
              r == IF (e \div 2 ^ bit) % 2 = 1 THEN Reduce(result * value, m) ELSE <<result, 0>>
              s == IF top /\ e \div 2 ^ bit = 1 THEN <<value, 0>> ELSE Reduce(value * value, m) IN
            /\ Assert(NL(result * value) <= 2 * KK /\ NL(value * value) <= 2 * KK, "within the contract of Reduce")
            /\ result' = r[1] /\ value' = s[1] /\ worst' = Max(worst, Max(r[2], s[2]))
       /\ bit' = bit + 1 /\ UNCHANGED <<m, v0, e>>
Next == Bit
Spec == Init /\ [][Next]_vars
\* both accumulators hold what they stand for, reduced once they have been through Reduce with k limbs
Holds == /\ result % m = PowMod(v0, e % 2 ^ bit, m)
         /\ e \div 2 ^ bit # 0 => value % m = PowMod(v0, 2 ^ bit, m)
\* the answer is fully reduced: it is what mod_pow returns without a further division
Result == (e \div 2 ^ bit = 0) => result = PowMod(v0, e, m)
Few == worst <= 2                       \* the subtraction loop runs twice at most
ASSUME TLCSet(1, {})
Witness == (e \div 2 ^ bit = 0) => Seen(worst, <<m, v0, e>>)
=============================================================================
