----------------------------- MODULE QuantityMC -----------------------------
(* Enumerates the texts over an alphabet, and compares the automaton with the grammar. *)
EXTENDS Quantity, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLES text, q
Init == text = <<>> /\ q = Start
Next == \E c \in Alphabet : Len(text) < MaxLen /\ text' = Append(text, c) /\ q' = Step(q, c)
Spec == Init /\ [][Next]_<<text, q>>
Emit == PrintT("@S " \o ToJson(text))

\* the grammar: blanks digits+ blanks (letter tail*)? blanks
All(s, S) == \A k \in 1..Len(s) : s[k] \in S
Grammar(s) ==
  \E a \in 0..Len(s) : \E b \in (a+1)..Len(s) : \E c \in b..Len(s) : \E d \in c..Len(s) :
    /\ All(SubSeq(s, 1, a), Blanks) /\ All(SubSeq(s, a+1, b), Digits) /\ All(SubSeq(s, b+1, c), Blanks)
    /\ All(SubSeq(s, c+1, d), UnitTail) /\ (d > c => s[c+1] \notin Digits) /\ All(SubSeq(s, d+1, Len(s)), Blanks)
GrammarInv == Grammar(text) <=> q.at \notin {"lead", "bad"}
\* once refused, always refused; blanks around and between do not matter
BadInv == [][q.at = "bad" => q'.at = "bad"]_<<text, q>>
BlankInv == \A k \in Kinds : /\ Parse(<<" ">> \o text, k) = Parse(text, k) /\ Parse(text \o <<" ">>, k) = Parse(text, k)
\* a thousand and twenty-four of a unit are one of the next
UnitInv == Parse(<<"1","0","2","4","K">>, "size") = Parse(<<"1","M">>, "size") /\ Parse(<<"7","d">>, "duration") = Parse(<<"1", "w">>, "duration")
=============================================================================
