------------------------------- MODULE StrMC -------------------------------
(* What the pieces owe each other on every short text over a small alphabet: *)
(* the CSV automaton, the splits, the searches and the trimming.             *)
EXTENDS Str
CONSTANT N
Alpha == {44, 34, 10, 13, 97, 92}     \* , " \n \r a \
Texts == UNION {[1..n -> Alpha] : n \in 0..N}
Next == \E v \in Texts : src = <<>> /\ Src(v) /\ ev' = [op |-> "src"]
Spec == Init /\ [][Next]_vars
Sep == {44}
RECURSIVE Join(_, _)
Join(q, c) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<c>> \o Join(Tail(q), c)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
(* pieces put back together with the separator give the text *)
SplitJoin == LET p == SplitsEsc(src, Sep, 0, FALSE) IN Join(p, 44) = src
SplitPlain == LET p == Splits(src, Sep, FALSE) IN
              Join(p, 44) \in {src, Take(src, Len(src) - 1)}
SkipEmpty == \A i \in 1..Len(Splits(src, Sep, TRUE)) : Splits(src, Sep, TRUE)[i] # <<>>
SplitNoSep == Cat(Splits(src, Sep, TRUE)) = SelectSeq(src, LAMBDA x : x # 44)
(* an escaped text splits back into itself *)
Escape(q) == Cat([i \in 1..Len(q) |-> IF q[i] \in {44, 92} THEN <<92, q[i]>> ELSE <<q[i]>>])
EscRound == SplitsEsc(Escape(src), Sep, 92, FALSE) = <<src>>
(* a quoted text is one field *)
QuoteCsv(q) == <<34>> \o Cat([i \in 1..Len(q) |-> IF q[i] = 34 THEN <<34, 34>> ELSE <<q[i]>>]) \o <<34>>
CsvRound == LET z == Csv(QuoteCsv(src) \o <<44>> \o QuoteCsv(src) \o <<10, 97>>, 44, 34) IN
            z.st = "end" /\ z.f = <<src, src>> /\ z.n = 2 * Len(QuoteCsv(src)) + 2
(* trimming is idempotent and keeps the inside *)
TrimTwice == LET t == RTrim(LTrim(src, {10, 13}), {10, 13}) IN
             /\ RTrim(LTrim(t, {10, 13}), {10, 13}) = t
             /\ (t # <<>> => Find(src, t) = Span(src, {10, 13}))
FindIs == \A v \in {<<97>>, <<97, 44>>, <<>>} :
            LET k == Find(src, v) IN
            /\ k >= 0 => StartsWith(Drop(src, k), v)
            /\ k < 0 => Len(v) > 0 /\ Len(SelectSeq(src, LAMBDA x : x = v[1])) + Len(v) <= Len(src) + 1 + Len(v)
Order == Cmp(src, <<44, 97>>) = -Cmp(<<44, 97>>, src)
SpliceIs == \A p \in 0..Len(src) : \A r \in 0..(Len(src) - p) :
            LET q == Spliced(src, p, r, <<1>>) IN Len(q) = Len(src) - r + 1 /\ q[p + 1] = 1
=============================================================================
