------------------------------ MODULE Quantity ------------------------------
(* Texts of sizes, durations and percentages.  A text is a sequence of one-character
   strings; it is read by an automaton, character by character.  Quantities are unbounded:
   sequences of decimal digits, least significant first.                                  *)
EXTENDS Naturals, Sequences, FiniteSets

Kinds == {"size", "duration", "percentage"}
Val == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
          CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
            [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Digits == DOMAIN Val
Blanks == {" ", "\t", "\n"}
\* what may follow the first letter of a unit, e.g. GB, GiB, seconds
Letters == {"K","M","G","T","P","k","m","g","t","p","s","h","d","w","B","b","i","e","c","o","n","x","E","a","f","j","l","q","r","u","v","y","z","S","H","D","W","N"}
UnitTail == Letters \cup Digits \cup {"%", "_"}
\* factors of the units, as the small numbers to multiply by
K1 == <<1024>>
Unit(kind) ==
  CASE kind = "size" -> [c \in {"K","k","M","m","G","g","T","t","P","p"} |->
                           CASE c \in {"K","k"} -> K1 [] c \in {"M","m"} -> K1 \o K1 [] c \in {"G","g"} -> K1 \o K1 \o K1
                             [] c \in {"T","t"} -> K1 \o K1 \o K1 \o K1 [] c \in {"P","p"} -> K1 \o K1 \o K1 \o K1 \o K1]
    [] kind = "duration" -> [c \in {"s","m","h","d","w"} |->
                           CASE c = "s" -> <<>> [] c = "m" -> <<60>> [] c = "h" -> <<60, 60>>
                             [] c = "d" -> <<24, 60, 60>> [] c = "w" -> <<7, 24, 60, 60>>]
    [] kind = "percentage" -> [c \in {"%"} |-> <<>>]

\* the automaton
Start == [at |-> "lead", num |-> <<>>, unit |-> ""]
Step(q, c) ==
  CASE q.at = "lead" /\ c \in Blanks -> q
    [] q.at \in {"lead", "num"} /\ c \in Digits -> [q EXCEPT !.at = "num", !.num = Append(@, Val[c])]
    [] q.at = "num" /\ c \in Blanks -> [q EXCEPT !.at = "gap"]
    [] q.at = "gap" /\ c \in Blanks -> q
    [] q.at \in {"num", "gap"} /\ c \in UnitTail \ Digits -> [q EXCEPT !.at = "unit", !.unit = c]
    [] q.at = "unit" /\ c \in UnitTail -> q
    [] q.at \in {"unit", "trail"} /\ c \in Blanks -> [q EXCEPT !.at = "trail"]
    [] OTHER -> [q EXCEPT !.at = "bad"]
RECURSIVE Read(_, _)
Read(q, s) == IF s = <<>> THEN q ELSE Read(Step(q, Head(s)), SubSeq(s, 2, Len(s)))

\* long multiplication of a number (least significant digit first) by a small number
RECURSIVE MulC(_, _, _)
MulC(ds, k, carry) ==
  IF ds = <<>> THEN IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o MulC(<<>>, k, carry \div 10)
  ELSE LET x == Head(ds) * k + carry IN <<x % 10>> \o MulC(SubSeq(ds, 2, Len(ds)), k, x \div 10)
RECURSIVE MulAll(_, _)
MulAll(ds, ks) == IF ks = <<>> THEN ds ELSE MulAll(MulC(ds, Head(ks), 0), SubSeq(ks, 2, Len(ks)))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* without leading zeros (zero is the empty sequence)
RECURSIVE Strip(_)
Strip(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN Strip(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds

Error == [ok |-> FALSE, v |-> <<>>]
Value(q, kind) ==
  IF q.at \in {"num", "gap"} THEN [ok |-> TRUE, v |-> Strip(Rev(q.num))]
  ELSE IF q.at \in {"unit", "trail"} /\ q.unit \in DOMAIN Unit(kind)
       THEN [ok |-> TRUE, v |-> Strip(MulAll(Rev(q.num), Unit(kind)[q.unit]))]
  ELSE Error
Parse(s, kind) == Value(Read(Start, s), kind)
=============================================================================
