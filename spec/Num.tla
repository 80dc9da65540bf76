-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers of the specification.  The definitions below are on TLC's       *)
(* native integers and are what the exhaustive small-field configurations  *)
(* use.  In the real-size configurations the class java/Num.java, found on *)
(* TLC's classpath under the name of this module, replaces every operator  *)
(* by the same operation on unbounded integers written as decimal strings. *)
(* Literals are written NLit(i), so that one specification text serves     *)
(* both.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

NLit(i) == i                        \* a literal
NInt(a) == a                        \* back to a native integer (small values only)
NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NNeg(a) == 0 - a
NAbs(a) == IF a < 0 THEN 0 - a ELSE a
NMod(a, m) == a % m                 \* result in 0..m-1, m > 0
NDiv(a, m) == a \div m              \* floor division, m > 0
NLt(a, b) == a < b
NLe(a, b) == a <= b
NEq(a, b) == a = b

RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN 1 ELSE a * NPow(a, k - 1)     \* k a native integer

(* b^e mod m for e >= 0 *)
RECURSIVE NPowMod(_, _, _)
NPowMod(b, e, m) == IF e = 0 THEN 1 % m
                    ELSE LET h == NPowMod(b, e \div 2, m)
                             s == (h * h) % m
                         IN  IF e % 2 = 1 THEN (s * (b % m)) % m ELSE s

NIsInvertible(a, m) == \E x \in 0..(m - 1) : (a * x) % m = 1 % m
NInv(a, m) == CHOOSE x \in 0..(m - 1) : (a * x) % m = 1 % m

(* a pseudo-random number below bound, a function of the seed and a tag *)
NRand(seed, tag, bound) == (seed * 7919 + tag * 104729 + 12345) % bound
=============================================================================
