------------------------------- MODULE Binding -------------------------------
(***************************************************************************)
(* Why the hash functions bind the statement and the messages (C31).  The  *)
(* hash is modelled as collision free: two calls give the same challenge   *)
(* exactly when the texts they feed it with are the same.  Two callers     *)
(* build their argument lists step by step; Bound says that no two         *)
(* different lists of the same shape get the same text.  "all" is how the  *)
(* library builds texts (elements in order, each with a text of its own    *)
(* of fixed width); the other disciplines are the ways to lose it.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Elems,        \* number of group elements
          MaxLen,       \* longest list
          Discipline    \* "all", "drop last", "drop first", "set", "half", "short texts", "representation"
VARIABLES one, two, done
vars == <<one, two, done>>

\* an element is a value in some representation; texts are sequences of digits
Els == [v : 0..(Elems - 1), r : 0..1]
Width == 2
Digits(v) == <<v \div 2, v % 2>>
Text(e) ==
  CASE Discipline = "short texts" -> IF e.v < 2 THEN <<e.v>> ELSE Digits(e.v)      \* no fixed width
    [] Discipline = "half" -> <<e.v % 2>>                                          \* one of two coordinates
    [] Discipline = "representation" -> Append(Digits(e.v), e.r)                   \* of the object instead of the element
    [] OTHER -> Digits(e.v)
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Text(Head(s)) \o Join(Tail(s))
Fed(s) ==
  CASE Discipline = "drop last" -> Join(SubSeq(s, 1, Len(s) - 1))
    [] Discipline = "drop first" -> Join(SubSeq(s, 2, Len(s)))
    [] Discipline = "set" -> {Text(s[i]) : i \in DOMAIN s}
    [] OTHER -> Join(s)
Same(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : s[i].v = t[i].v

Init == one = <<>> /\ two = <<>> /\ done = FALSE
Add1 == ~ done /\ two = <<>> /\ Len(one) < MaxLen /\ \E e \in Els : one' = Append(one, e) /\ UNCHANGED <<two, done>>
Add2 == ~ done /\ Len(two) < MaxLen /\ \E e \in Els : two' = Append(two, e) /\ UNCHANGED <<one, done>>
Ask == ~ done /\ one # <<>> /\ two # <<>> /\ done' = TRUE /\ UNCHANGED <<one, two>>
Next == Add1 \/ Add2 \/ Ask
Spec == Init /\ [][Next]_vars

\* different lists (of any lengths) give different challenges ...
Bound == done => (Fed(one) = Fed(two) => Same(one, two))
\* ... and equal elements the same, however they were computed
Canonical == done => (Same(one, two) => Fed(one) = Fed(two))
=============================================================================
