---- MODULE Rat ----
(***************************************************************************)
(* Exact rational arithmetic for trace specifications.                     *)
(*                                                                         *)
(* TLC's integers have 32 bits, so a rational number is represented by a   *)
(* string in canonical form: "p" or "p/q" with q > 1 and gcd(p, q) = 1.    *)
(* Equality of rationals is therefore equality of strings.  Arguments may  *)
(* also be TLA+ integers or decimal strings ("0.25", "1e-3"): R(x) is the  *)
(* canonical form of x.                                                    *)
(*                                                                         *)
(* The bodies below are placeholders; TLC uses the class Rat of            *)
(* spec/java/Rat.java (java.math.BigInteger) as a module override.         *)
(***************************************************************************)
LOCAL INSTANCE Integers

R(a) == CHOOSE x \in STRING : TRUE            \* canonical form
RAdd(a, b) == CHOOSE x \in STRING : TRUE      \* a + b
RSub(a, b) == CHOOSE x \in STRING : TRUE      \* a - b
RMul(a, b) == CHOOSE x \in STRING : TRUE      \* a * b
RDiv(a, b) == CHOOSE x \in STRING : TRUE      \* a / b
RNeg(a) == CHOOSE x \in STRING : TRUE         \* - a
RAbs(a) == CHOOSE x \in STRING : TRUE         \* |a|
RLe(a, b) == CHOOSE x \in BOOLEAN : TRUE      \* a <= b
RLt(a, b) == CHOOSE x \in BOOLEAN : TRUE      \* a < b
RFloor(a) == CHOOSE x \in Int : TRUE          \* floor, a TLA+ integer
RCeil(a) == CHOOSE x \in Int : TRUE           \* ceiling, a TLA+ integer
RSum(s) == CHOOSE x \in STRING : TRUE         \* sum of a sequence
RDot(s, u) == CHOOSE x \in STRING : TRUE      \* scalar product of sequences
RClose(a, b, rtol, atol) ==                   \* |a-b| <= atol + rtol*max(|a|,|b|)
    CHOOSE x \in BOOLEAN : TRUE
RRound(a, k) == CHOOSE x \in STRING : TRUE    \* nearest multiple of 10^-k

\* with the accuracy of about 16 digits (RSqrt: 40)
RSqrt(a) == CHOOSE x \in STRING : TRUE
RPow(a, b) == CHOOSE x \in STRING : TRUE      \* a^b, a > 0
RLn(a) == CHOOSE x \in STRING : TRUE
RExp(a) == CHOOSE x \in STRING : TRUE
RSin(a) == CHOOSE x \in STRING : TRUE
RCos(a) == CHOOSE x \in STRING : TRUE

RMax(a, b) == IF RLe(a, b) THEN R(b) ELSE R(a)
RMin(a, b) == IF RLe(a, b) THEN R(a) ELSE R(b)
====
