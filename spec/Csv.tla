--------------------------------- MODULE Csv ---------------------------------
(***************************************************************************)
(* The particle table of an input file, and of an output frame.            *)
(* A text is a sequence of lines, a line a sequence of characters.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Real

Blank == {" ", "\t"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsBlank(c) == c \in Blank
Unblank(line) == SelectSeq(line, LAMBDA c : ~IsBlank(c))

(* the items of a line: separated by commas, blanks do not count *)
RECURSIVE Split(_)
Split(line) ==
    LET commas == {i \in DOMAIN line : line[i] = ","}
    IN IF commas = {} THEN <<line>>
       ELSE LET i == CHOOSE i \in commas : \A j \in commas : i <= j
            IN <<SubSeq(line, 1, i - 1)>> \o Split(SubSeq(line, i + 1, Len(line)))
Items(line) == LET u == Unblank(line) IN IF u = <<>> THEN <<>> ELSE Split(u)

RECURSIVE Text(_)
Text(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Text(Tail(cs))

(* numbers: an optional sign, digits with an optional point, an optional exponent *)
Drop(cs, k) == SubSeq(cs, k + 1, Len(cs))
RECURSIVE Digits(_)
Digits(cs) == IF cs # <<>> /\ Head(cs) \in Digit THEN 1 + Digits(Tail(cs)) ELSE 0
Unsign(cs) == IF cs # <<>> /\ Head(cs) \in {"+", "-"} THEN Tail(cs) ELSE cs
IsInteger(cs) == LET d == Unsign(cs) IN d # <<>> /\ Digits(d) = Len(d)
IsNumber(cs) ==
    LET d == Unsign(cs)
        i == Digits(d)
        afterInt == Drop(d, i)
        point == afterInt # <<>> /\ Head(afterInt) = "."
        f == IF point THEN Digits(Tail(afterInt)) ELSE 0
        rest == IF point THEN Drop(Tail(afterInt), f) ELSE afterInt
    IN i + f > 0 /\ (rest = <<>> \/ (Head(rest) \in {"e", "E"} /\ IsInteger(Tail(rest))))
(* what surely is no number: it does not even begin like one *)
NoNumber(cs) == LET d == Unsign(cs) IN d = <<>> \/ Head(d) \notin Digit \cup {".", "i", "I", "n", "N"} \/ (Head(d) = "." /\ Digits(Tail(d)) = 0)

Names(dim) == IF dim = 2 THEN <<"Type", "x", "z", "u", "w", "p", "n">> ELSE <<"Type", "x", "y", "z", "u", "v", "w", "p", "n">>

(* Particles of a text. res is "ok", "rejected", or "unspecified" (nothing is promised about such a text). *)
Verdict(res) == [res |-> res, ps |-> <<>>]
Value(item) == RLit(Text(item))
RECURSIVE IntegerOf(_)
IntegerOf(cs) == IF cs = <<>> THEN 0 ELSE 10 * IntegerOf(SubSeq(cs, 1, Len(cs) - 1)) +
                 (CHOOSE k \in 0..9 : <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[k + 1] = cs[Len(cs)])
TypeOf(item) == IF Head(item) = "-" THEN -IntegerOf(Tail(item)) ELSE IntegerOf(Unsign(item))
Particle(dim, row, col) ==
    [ty |-> TypeOf(row[col["Type"]]),
     x |-> IF dim = 2 THEN <<Value(row[col["x"]]), Value(row[col["z"]])>> ELSE <<Value(row[col["x"]]), Value(row[col["y"]]), Value(row[col["z"]])>>,
     u |-> IF dim = 2 THEN <<Value(row[col["u"]]), Value(row[col["w"]])>> ELSE <<Value(row[col["u"]]), Value(row[col["v"]]), Value(row[col["w"]])>>,
     p |-> Value(row[col["p"]]), n |-> Value(row[col["n"]])]

Parse(dim, lines) ==
    LET table == SelectSeq([i \in DOMAIN lines |-> Items(lines[i])], LAMBDA it : it # <<>>)
        names == {Names(dim)[i] : i \in DOMAIN Names(dim)}
    IN IF table = <<>> THEN Verdict("rejected")
       ELSE LET head == [i \in DOMAIN table[1] |-> Text(table[1][i])]
                rows == Tail(table)
                given == {head[i] : i \in DOMAIN head}
            IN IF given # names THEN Verdict("rejected")      \* an unknown or missing name
               ELSE IF Cardinality(given) # Len(head) THEN Verdict("unspecified")
               ELSE LET col == [m \in names |-> CHOOSE i \in DOMAIN head : head[i] = m]
                        short == \E i \in DOMAIN rows : Len(rows[i]) < Len(head)
                        long == \E i \in DOMAIN rows : Len(rows[i]) > Len(head)
                        none(i) == \E m \in names : col[m] <= Len(rows[i]) /\ NoNumber(rows[i][col[m]])
                        fine(i) == IsInteger(rows[i][col["Type"]]) /\ \A m \in names : IsNumber(rows[i][col[m]])
                    IN IF short \/ (\E i \in DOMAIN rows : none(i)) THEN Verdict("rejected")
                       ELSE IF long \/ (\E i \in DOMAIN rows : ~fine(i)) THEN Verdict("unspecified")
                       ELSE [res |-> "ok", ps |-> [i \in DOMAIN rows |-> Particle(dim, rows[i], col)]]
=============================================================================
