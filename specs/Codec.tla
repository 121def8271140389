------------------------------- MODULE Codec -------------------------------
(* Text codecs: quoting, transport encodings, charsets. Texts are sequences of bytes 0..255.                     *)
(* Every encoder and decoder is a function on texts (or a relation between the input and what may be produced);  *)
(* a call appends its result to a buffer, and a call that fails leaves the buffer as it was.                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Folds, CodecTables
VARIABLE ev

MapCat(f(_), s) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, s)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, IF b > Len(s) THEN Len(s) ELSE b)
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
(* first index >= i at which p occurs; 0 when there is none *)
RECURSIVE FindSeq(_, _, _)
FindSeq(s, i, p) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF StartsAt(s, i, p) THEN i ELSE FindSeq(s, i + 1, p)
FindChr(s, i, c) == FindSeq(s, i, <<c>>)

(* ---- hexadecimal ---- *)
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 97..102 THEN b - 87 ELSE IF b \in 65..70 THEN b - 55 ELSE -1
HexU(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexL(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex2(b) == <<HexU(b \div 16), HexU(b % 16)>>
(* value of the two digits at i and i+1, -1 when they are not two digits *)
HexAt(s, i) == IF i + 1 > Len(s) THEN -1 ELSE IF HexVal(s[i]) < 0 \/ HexVal(s[i+1]) < 0 THEN -1 ELSE (16 * HexVal(s[i])) + HexVal(s[i+1])
HexEnc(s) == MapCat(Hex2, s)
HexDecOk(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexVal(s[i]) >= 0
HexDec(s) == [i \in 1..(Len(s) \div 2) |-> HexAt(s, (2 * i) - 1)]

(* ---- UTF-8 (up to four bytes, no check of minimality or of the surrogates) ---- *)
U8Need(b) == IF b < 128 THEN 1 ELSE IF b < 192 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4 ELSE 0
U8Len(s, i) == LET n == U8Need(s[i]) IN
    IF n = 0 \/ i + n - 1 > Len(s) THEN 0 ELSE IF \A k \in 1..(n - 1) : s[i + k] \in 128..191 THEN n ELSE 0
U8Val(s, i, n) == CASE n = 1 -> s[i]
                    [] n = 2 -> ((s[i] - 192) * 64) + (s[i+1] - 128)
                    [] n = 3 -> ((s[i] - 224) * 4096) + ((s[i+1] - 128) * 64) + (s[i+2] - 128)
                    [] n = 4 -> ((s[i] - 240) * 262144) + ((s[i+1] - 128) * 4096) + ((s[i+2] - 128) * 64) + (s[i+3] - 128)
U8Enc(c) == IF c < 128 THEN <<c>>
            ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
            ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
(* code points of the longest valid prefix and number of bytes it takes *)
RECURSIVE U8Prefix_(_, _, _)
U8Prefix_(s, i, acc) == IF i > Len(s) THEN <<acc, i - 1>>
    ELSE LET n == U8Len(s, i) IN IF n = 0 THEN <<acc, i - 1>> ELSE U8Prefix_(s, i + n, Append(acc, U8Val(s, i, n)))
U8Prefix(s) == U8Prefix_(s, 1, <<>>)
U8Valid(s) == U8Prefix(s)[2] = Len(s)
(* every byte which does not start a valid character counts as the character of that number *)
RECURSIVE Lenient_(_, _, _)
Lenient_(s, i, acc) == IF i > Len(s) THEN acc
    ELSE LET n == U8Len(s, i) IN IF n = 0 THEN Lenient_(s, i + 1, Append(acc, s[i])) ELSE Lenient_(s, i + n, Append(acc, U8Val(s, i, n)))
Lenient(s) == Lenient_(s, 1, <<>>)
U8Text(cs) == MapCat(U8Enc, cs)

(* ---- backslashes ---- *)
IndexOf(a, c) == IF Has(a, c) THEN Max({i \in 1..Len(a) : a[i] = c}) ELSE 0
EscOf(a, b, c) == IF Has(a, c) THEN b[IndexOf(a, c)] ELSE IF c = 92 THEN 92 ELSE -1
Slashes(s, a, b) == MapCat(LAMBDA c : LET r == EscOf(a, b, c) IN IF r < 0 THEN <<c>> ELSE IF r = 0 THEN <<>> ELSE <<92, r>>, s)
RECURSIVE Unslash_(_, _, _, _, _)
Unslash_(s, i, a, b, acc) == IF i > Len(s) THEN acc
    ELSE IF s[i] = 92 /\ i < Len(s) /\ EscOf(a, b, s[i+1]) >= 0 THEN Unslash_(s, i + 2, a, b, Append(acc, EscOf(a, b, s[i+1])))
    ELSE Unslash_(s, i + 1, a, b, Append(acc, s[i]))
Unslashes(s, a, b) == Unslash_(s, 1, a, b, <<>>)

IsVar(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95
Env == [VP_A |-> <<97, 108, 112, 104, 97>>, VP_E |-> <<>>, VP_D |-> <<120, 36, 121, 92, 122>>]
EnvNames == << <<86, 80, 95, 65>>, <<86, 80, 95, 69>>, <<86, 80, 95, 68>> >>
EnvVal(n) == CASE n = EnvNames[1] -> Env.VP_A [] n = EnvNames[2] -> Env.VP_E [] n = EnvNames[3] -> Env.VP_D
RECURSIVE SpanVar(_, _)
SpanVar(s, i) == IF i <= Len(s) /\ IsVar(s[i]) THEN SpanVar(s, i + 1) ELSE i
(* <<ok, text>>: $NAME and ${NAME} replaced by their value, \$ and \\ by the character *)
RECURSIVE Expand_(_, _, _)
Expand_(s, i, acc) == IF i > Len(s) THEN <<TRUE, acc>>
    ELSE IF s[i] = 92 /\ i < Len(s) /\ s[i+1] \in {36, 92} THEN Expand_(s, i + 2, Append(acc, s[i+1]))
    ELSE IF s[i] # 36 THEN Expand_(s, i + 1, Append(acc, s[i]))
    ELSE LET brace == i < Len(s) /\ s[i+1] = 123
             close == IF brace THEN FindChr(s, i + 2, 125) ELSE SpanVar(s, i + 1)
             name == IF brace THEN Sub(s, i + 2, close - 1) ELSE Sub(s, i + 1, close - 1)
         IN IF close = 0 \/ ~Has(EnvNames, name) THEN <<FALSE, <<>> >>
            ELSE Expand_(s, IF brace THEN close + 1 ELSE close, acc \o EnvVal(name))
Expand(s) == Expand_(s, 1, <<>>)

(* C escapes *)
CEsc(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 101 -> 27 [] c = 116 -> 9 [] c = 110 -> 10 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13
             [] c \in {92, 34, 39} -> c [] OTHER -> -1
IsOct(s, i) == i <= Len(s) /\ s[i] \in 48..55
RECURSIVE Unquote_(_, _, _)
Unquote_(s, i, acc) == IF i > Len(s) THEN acc
    ELSE IF s[i] # 92 \/ i = Len(s) THEN Unquote_(s, i + 1, Append(acc, s[i]))
    ELSE LET c == s[i+1] IN
         IF CEsc(c) >= 0 THEN Unquote_(s, i + 2, Append(acc, CEsc(c)))
         ELSE IF IsOct(s, i + 1) THEN
              LET d1 == s[i+1] - 48
                  two == IsOct(s, i + 2)
                  d2 == IF two THEN (8 * d1) + s[i+2] - 48 ELSE d1
                  j == IF two THEN i + 3 ELSE i + 2
                  (* a third digit belongs to the escape if the value stays a byte *)
                  three == IsOct(s, j) /\ d2 < 32
              IN Unquote_(s, IF three THEN j + 1 ELSE j, Append(acc, IF three THEN (8 * d2) + s[j] - 48 ELSE d2))
         ELSE IF c = 120 /\ HexAt(s, i + 2) >= 0 THEN Unquote_(s, i + 4, Append(acc, HexAt(s, i + 2)))
         ELSE IF c = 117 /\ HexAt(s, i + 2) >= 0 /\ HexAt(s, i + 4) >= 0 THEN Unquote_(s, i + 6, acc \o U8Enc((256 * HexAt(s, i + 2)) + HexAt(s, i + 4)))
         ELSE Unquote_(s, i + 1, Append(acc, 92))
Unquote(s) == Unquote_(s, 1, <<>>)

(* ---- URL ---- *)
UrlSafe(c) == IsVar(c) \/ c \in {45, 46, 47}
UrlEnc(s) == MapCat(LAMBDA c : IF UrlSafe(c) THEN <<c>> ELSE <<37>> \o Hex2(c), s)
RECURSIVE UrlDec_(_, _, _)
UrlDec_(s, i, acc) == IF i > Len(s) THEN acc
    ELSE IF s[i] = 37 /\ HexAt(s, i + 1) >= 0 THEN UrlDec_(s, i + 3, Append(acc, HexAt(s, i + 1)))
    ELSE UrlDec_(s, i + 1, Append(acc, s[i]))
UrlDec(s) == UrlDec_(s, 1, <<>>)

(* ---- XML ---- *)
XmlEsc(s) == MapCat(LAMBDA c :
    CASE c = 38 -> <<38, 97, 109, 112, 59>> [] c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>>
      [] c = 39 -> <<38, 35, 51, 57, 59>> [] c = 34 -> <<38, 35, 51, 52, 59>>
      [] c < 32 /\ c \notin {9, 10, 13} -> <<>> [] OTHER -> <<c>>, s)
XmlStripped(s) == SelectSeq(s, LAMBDA c : c >= 32 \/ c \in {9, 10, 13})
IsDig(c) == c \in 48..57
DecVal(s, a, b) == FoldLeft(LAMBDA v, c : (10 * v) + c - 48, 0, Sub(s, a, b))
HexVals(s, a, b) == FoldLeft(LAMBDA v, c : (16 * v) + HexVal(c), 0, Sub(s, a, b))
Named(n) == CASE n = <<108, 116>> -> 60 [] n = <<103, 116>> -> 62 [] n = <<97, 109, 112>> -> 38 [] n = <<97, 112, 111, 115>> -> 39
              [] n = <<113, 117, 111, 116>> -> 34 [] OTHER -> -1
(* status "ok", "bad", or "any" for the references on which nothing is required (more than six characters, or a number    *)
(* that is not a character, or no digit at all): what follows them is not looked at                                       *)
RECURSIVE XmlUn_(_, _, _)
XmlUn_(s, i, acc) == IF i > Len(s) THEN <<"ok", acc>>
    ELSE IF s[i] = 60 THEN
         IF StartsAt(s, i, <<60, 33, 45, 45>>) THEN
              LET e == FindSeq(s, i + 4, <<45, 45, 62>>) IN IF e = 0 THEN <<"bad", acc>> ELSE XmlUn_(s, e + 3, acc)
         ELSE IF StartsAt(s, i, <<60, 33, 91, 67, 68, 65, 84, 65, 91>>) THEN
              LET e == FindSeq(s, i + 9, <<93, 93, 62>>) IN IF e = 0 THEN <<"bad", acc>> ELSE XmlUn_(s, e + 3, acc \o Sub(s, i + 9, e - 1))
         ELSE <<"bad", acc>>
    ELSE IF s[i] # 38 THEN XmlUn_(s, i + 1, Append(acc, s[i]))
    ELSE LET semi == FindChr(s, i + 1, 59) IN
         IF semi <= i + 1 THEN <<"bad", acc>>
         ELSE IF s[i+1] # 35 THEN
              LET c == Named(Sub(s, i + 1, semi - 1)) IN IF c < 0 THEN <<"bad", acc>> ELSE XmlUn_(s, semi + 1, Append(acc, c))
         ELSE IF semi - i > 8 THEN
              IF \E k \in (i + 2)..(semi - 1) : ~(HexVal(s[k]) >= 0 \/ (k = i + 2 /\ s[k] = 120)) THEN <<"bad", acc>> ELSE <<"any", acc>>
         ELSE LET hexa == s[i+2] = 120
                  a == IF hexa THEN i + 3 ELSE i + 2
              IN IF a > semi - 1 THEN <<"any", acc>>
                 ELSE IF \E k \in a..(semi - 1) : IF hexa THEN HexVal(s[k]) < 0 ELSE ~IsDig(s[k]) THEN
                      (* blanks and a plus sign before the number are tolerated *)
                      IF ~hexa /\ \A k \in a..(semi - 1) : IsDig(s[k]) \/ s[k] \in {9, 10, 11, 12, 13, 32, 43} THEN <<"any", acc>> ELSE <<"bad", acc>>
                 ELSE LET v == IF hexa THEN HexVals(s, a, semi - 1) ELSE DecVal(s, a, semi - 1) IN
                      IF v > 1114111 THEN <<"any", acc>> ELSE XmlUn_(s, semi + 1, acc \o U8Enc(v))
XmlUn(s) == XmlUn_(s, 1, <<>>)

(* ---- quoted printable ---- *)
(* what an encoder may write for the text: lines of at most 76 characters, printable, no blank before an end of line, no  *)
(* full stop at the start of one, ended by an end of line; strictly decoded (RFC 2045) it gives the text back             *)
RECURSIVE QpStrict_(_, _, _)
QpStrict_(s, i, acc) == IF i > Len(s) THEN acc
    ELSE IF s[i] # 61 THEN QpStrict_(s, i + 1, Append(acc, s[i]))
    ELSE IF StartsAt(s, i, <<61, 13, 10>>) THEN QpStrict_(s, i + 3, acc)
    ELSE IF HexAt(s, i + 1) >= 0 THEN QpStrict_(s, i + 3, Append(acc, HexAt(s, i + 1)))
    ELSE <<-1>>
QpStrict(s) == QpStrict_(s, 1, <<>>)
QpLines(s) == \A i \in 1..Len(s) :
    /\ s[i] \in 32..126 \/ (s[i] = 9) \/ (s[i] = 13 /\ i < Len(s) /\ s[i+1] = 10) \/ (s[i] = 10 /\ i > 1 /\ s[i-1] = 13)
    /\ s[i] \in {9, 32} => i < Len(s) /\ s[i+1] # 13
    /\ s[i] = 46 => i > 1 /\ s[i-1] # 10
    /\ s[i] = 61 => \A k \in {i + 1, i + 2} : k <= Len(s)
RECURSIVE LineLens_(_, _, _, _)
LineLens_(s, i, n, acc) == IF i > Len(s) THEN (IF n > 0 THEN Append(acc, n) ELSE acc)
    ELSE IF s[i] = 10 /\ i > 1 /\ s[i-1] = 13 THEN LineLens_(s, i + 1, 0, Append(acc, n - 1)) ELSE LineLens_(s, i + 1, n + 1, acc)
LineLens(s) == LineLens_(s, 1, 0, <<>>)
QpOk(s, enc) == /\ QpStrict(enc) = s
                /\ QpLines(enc)
                /\ \A k \in 1..Len(LineLens(enc)) : LineLens(enc)[k] <= 76
                /\ s # <<>> => enc[Len(enc)] = 10
(* the decoder: ends of line become line feeds, a zero ends the text, what is not an escape is kept *)
RECURSIVE QpDec_(_, _, _)
QpDec_(s, i, acc) == IF i > Len(s) \/ s[i] = 0 THEN acc
    ELSE IF s[i] = 13 /\ i < Len(s) /\ s[i+1] = 10 THEN QpDec_(s, i + 2, Append(acc, 10))
    ELSE IF s[i] # 61 THEN QpDec_(s, i + 1, Append(acc, s[i]))
    ELSE IF StartsAt(s, i, <<61, 13, 10>>) THEN QpDec_(s, i + 3, acc)
    ELSE IF HexAt(s, i + 1) >= 0 THEN QpDec_(s, i + 3, Append(acc, HexAt(s, i + 1)))
    ELSE QpDec_(s, i + 1, Append(acc, 61))
QpDec(s) == QpDec_(s, 1, <<>>)
RECURSIVE CrLf_(_, _, _)
CrLf_(s, i, acc) == IF i > Len(s) THEN acc ELSE IF StartsAt(s, i, <<13, 10>>) THEN CrLf_(s, i + 2, Append(acc, 10)) ELSE CrLf_(s, i + 1, Append(acc, s[i]))

(* ---- base 64 ---- *)
B64Chr(v, url) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN (IF url THEN 45 ELSE 43) ELSE (IF url THEN 95 ELSE 47)
B64Val(c, url) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
                  ELSE IF c = (IF url THEN 45 ELSE 43) THEN 62 ELSE IF c = (IF url THEN 95 ELSE 47) THEN 63 ELSE -1
B64Pack(s, k, url) == LET i == (3 * k) - 2
                          a == s[i]
                          b == IF i + 1 <= Len(s) THEN s[i+1] ELSE 0
                          c == IF i + 2 <= Len(s) THEN s[i+2] ELSE 0
                      IN <<B64Chr(a \div 4, url), B64Chr(((a % 4) * 16) + (b \div 16), url),
                           IF i + 1 <= Len(s) THEN B64Chr(((b % 16) * 4) + (c \div 64), url) ELSE 61,
                           IF i + 2 <= Len(s) THEN B64Chr(c % 64, url) ELSE 61>>
NPacks(s) == (Len(s) + 2) \div 3
(* packs per line: 0 for no line at all *)
PerLine(w) == IF w = 0 THEN 19 ELSE IF w < 0 THEN 0 ELSE w \div 4
B64Enc(s, w, url) == FlattenSeq([k \in 1..NPacks(s) |-> B64Pack(s, k, url) \o
    IF PerLine(w) > 0 /\ k % PerLine(w) = 0 /\ k < NPacks(s) THEN <<13, 10>> ELSE <<>>])
(* the end of line after the last line is required, except after a line made of a single padded group *)
B64Ok(s, w, url, out) ==
    LET e == B64Enc(s, w, url)
        lonely == Len(s) % 3 # 0 /\ (NPacks(s) - 1) % PerLine(w) = 0
    IN IF PerLine(w) = 0 \/ s = <<>> THEN out = e ELSE out = e \o <<13, 10>> \/ (lonely /\ out = e)
IsSpace(c) == c \in 9..13 \/ c = 32
B64Dec(s0, url) == LET s == SelectSeq(s0, LAMBDA c : ~IsSpace(c))
                       n == Len(s)
                       pad == IF n >= 1 /\ s[n] = 61 THEN (IF n >= 2 /\ s[n-1] = 61 THEN 2 ELSE 1) ELSE 0
                       v == [i \in 1..n |-> IF i > n - pad THEN 0 ELSE B64Val(s[i], url)]
                   IN IF n % 4 # 0 \/ \E i \in 1..n : v[i] < 0 THEN <<FALSE, <<>> >>
                      ELSE <<TRUE, SubSeq(FlattenSeq([k \in 1..(n \div 4) |->
                               LET j == 4 * k IN <<(v[j-3] * 4) + (v[j-2] \div 16), ((v[j-2] % 16) * 16) + (v[j-1] \div 4), ((v[j-1] % 4) * 64) + v[j]>>]),
                               1, ((n \div 4) * 3) - pad)>>

(* ---- CSV ---- *)
CsvEsc(s, sep) == IF \E i \in 1..Len(s) : s[i] \in {34, 10, 13, sep}
    THEN <<34>> \o MapCat(LAMBDA c : IF c = 34 THEN <<34, 34>> ELSE <<c>>, s) \o <<34>> ELSE s

(* ---- punycode (RFC 3492) ---- *)
Adapt(delta0, num, first) ==
    LET d == IF first THEN delta0 \div 700 ELSE delta0 \div 2
        RECURSIVE Loop(_, _)
        Loop(x, k) == IF x > 455 THEN Loop(x \div 35, k + 36) ELSE k + ((36 * x) \div (x + 38))
    IN Loop(d + (d \div num), 0)
PunyDigit(d) == IF d < 26 THEN 97 + d ELSE 22 + d
PunyT(k, bias) == IF k <= bias THEN 1 ELSE IF k >= bias + 26 THEN 26 ELSE k - bias
RECURSIVE PunyInt(_, _, _, _)
PunyInt(q, k, bias, acc) == LET t == PunyT(k, bias) IN
    IF q < t THEN Append(acc, PunyDigit(q)) ELSE PunyInt((q - t) \div (36 - t), k + 36, bias, Append(acc, PunyDigit(t + ((q - t) % (36 - t)))))
RECURSIVE PunyRun(_, _, _, _, _, _, _)
(* one pass over the input for the code point n, then on to the next larger one *)
PunyRun(cps, n, delta, bias, h, b, acc) ==
    IF h >= Len(cps) THEN acc
    ELSE LET m == Min({cps[i] : i \in {j \in 1..Len(cps) : cps[j] >= n}})
             st == FoldLeft(LAMBDA a, c :
                       IF c < m THEN [a EXCEPT !.d = @ + 1]
                       ELSE IF c = m THEN [d |-> 0, bias |-> Adapt(a.d, a.h + 1, a.h = b), h |-> a.h + 1, out |-> PunyInt(a.d, 36, a.bias, a.out)]
                       ELSE a, [d |-> delta + ((m - n) * (h + 1)), bias |-> bias, h |-> h, out |-> acc], cps)
         IN PunyRun(cps, m + 1, st.d + 1, st.bias, st.h, b, st.out)
Puny(cps) == LET basic == SelectSeq(cps, LAMBDA c : c < 128)
                 b == Len(basic)
             IN PunyRun(cps, 128, 0, 72, b, b, IF b > 0 THEN Append(basic, 45) ELSE <<>>)
(* decoder, for the model: section 6.2 *)
LastOf(s, c) == IF Has(s, c) THEN Max({i \in 1..Len(s) : s[i] = c}) ELSE 0
PunyVal(c) == IF c \in 97..122 THEN c - 97 ELSE IF c \in 48..57 THEN c - 22 ELSE -1
RECURSIVE UnPunyInt(_, _, _, _, _, _)
UnPunyInt(s, p, i, w, k, bias) == LET d == PunyVal(s[p])
                                      t == PunyT(k, bias)
                                  IN IF d < t THEN <<i + (d * w), p + 1>> ELSE UnPunyInt(s, p + 1, i + (d * w), w * (36 - t), k + 36, bias)
RECURSIVE UnPunyRun(_, _, _, _, _, _)
UnPunyRun(s, p, n, i, bias, out) == IF p > Len(s) THEN out
    ELSE LET r == UnPunyInt(s, p, i, 1, 36, bias)
             num == Len(out) + 1
             n2 == n + (r[1] \div num)
             i2 == r[1] % num
         IN UnPunyRun(s, r[2], n2, i2 + 1, Adapt(r[1] - i, num, i = 0), SubSeq(out, 1, i2) \o <<n2>> \o SubSeq(out, i2 + 1, Len(out)))
UnPuny(s) == LET d == LastOf(s, 45) IN UnPunyRun(s, d + 1, 128, 0, 72, SubSeq(s, 1, d - 1))

(* ---- internationalised domain names (RFC 3490, without normalisation and bidirectional checks) ---- *)
InRanges(tab, c) == \E i \in 1..Len(tab) : tab[i][1] <= c /\ c <= tab[i][2]
Lower(c) == IF c < 512 THEN TabLower[c + 1] ELSE c
Upper(c) == IF c < 512 THEN TabUpper[c + 1] ELSE c
Std3 == 1  AllowUn == 2  AsciiLower == 4
Flag(f, b) == (f \div b) % 2 = 1
Ldh(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 45
IsDot(c) == c \in {46, 12290, 65294, 65377}
SplitDots(cps) == FoldLeft(LAMBDA acc, c : IF IsDot(c) THEN Append(acc, <<>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], << <<>> >>, cps)
CharBad(c, f) == IF c < 128 THEN Flag(f, Std3) /\ ~Ldh(c)
                 ELSE ~InRanges(TabB1, c) /\ (InRanges(TabProhibited, c) \/ (~Flag(f, AllowUn) /\ InRanges(TabUnassigned, c)))
(* the encoded label; <<>> when the label is refused *)
Label(cps, f) ==
    LET ascii == \A i \in 1..Len(cps) : cps[i] < 128
        prep0 == SelectSeq(cps, LAMBDA c : c < 128 \/ ~InRanges(TabB1, c))
        prep == Map(Lower, prep0)
        res == IF ascii THEN (IF Flag(f, AsciiLower) THEN prep ELSE cps)
               ELSE IF \A i \in 1..Len(prep) : prep[i] < 128 THEN prep
               ELSE IF StartsAt(prep, 1, <<120, 110, 45, 45>>) THEN <<>> ELSE <<120, 110, 45, 45>> \o Puny(prep)
    IN IF prep = <<>> THEN <<>>
       ELSE IF \E i \in 1..Len(cps) : CharBad(cps[i], f) THEN <<>>
       ELSE IF Flag(f, Std3) /\ (prep0[1] = 45 \/ prep0[Len(prep0)] = 45) THEN <<>>
       ELSE IF Len(res) > 63 THEN <<>> ELSE res
Idna(s, f) == IF ~U8Valid(s) THEN <<0, <<>> >>
    ELSE LET labels == SplitDots(U8Prefix(s)[1])
             enc == [i \in 1..Len(labels) |-> Label(labels[i], f)]
         IN IF Len(labels) < 2 \/ \E i \in 1..Len(enc) : enc[i] = <<>> THEN <<0, <<>> >>
            ELSE <<Len(labels), FlattenSeq([i \in 1..Len(enc) |-> IF i = 1 THEN enc[i] ELSE <<46>> \o enc[i]])>>

(* ---- charsets ---- *)
RECURSIVE FromLatin_(_, _, _, _)
FromLatin_(s, i, nine, acc) == IF i > Len(s) THEN acc
    ELSE LET n == U8Len(s, i) IN
         IF n > 0 THEN FromLatin_(s, i + n, nine, acc \o Sub(s, i, i + n - 1))
         ELSE FromLatin_(s, i + 1, nine, acc \o U8Enc(IF s[i] < 160 THEN TabCp1252[s[i] - 127] ELSE IF nine /\ s[i] < 192 THEN TabLatin9[s[i] - 159] ELSE s[i]))
FromLatin(s, nine) == FromLatin_(s, 1, nine, <<>>)
ToLatin1(s, rep) == IF ~U8Valid(s) THEN <<FALSE, <<>> >>
    ELSE LET cs == U8Prefix(s)[1] IN
         IF rep < 0 /\ \E i \in 1..Len(cs) : cs[i] > 255 THEN <<FALSE, <<>> >>
         ELSE <<TRUE, MapCat(LAMBDA c : IF c < 256 THEN <<c>> ELSE IF rep = 0 THEN <<>> ELSE <<rep>>, cs)>>
ToUcs2(s, f(_)) == LET cs == Lenient(s) IN IF \E i \in 1..Len(cs) : cs[i] > 65535 THEN <<FALSE, <<>> >> ELSE <<TRUE, MapCat(f, cs)>>
Be(c) == <<c \div 256, c % 256>>
Le(c) == <<c % 256, c \div 256>>
BeHex(c) == Hex2(c \div 256) \o Hex2(c % 256)
FromUcs2(s, be) == IF Len(s) % 4 # 0 \/ \E i \in 1..Len(s) : HexVal(s[i]) < 0 THEN <<FALSE, <<>> >>
    ELSE LET b == HexDec(s) IN <<TRUE, FlattenSeq([k \in 1..(Len(b) \div 2) |-> U8Enc(IF be THEN (256 * b[(2*k)-1]) + b[2*k] ELSE (256 * b[2*k]) + b[(2*k)-1])])>>

CaseMap(s, f(_)) == LET cs == Lenient(s) IN IF \E i \in 1..Len(cs) : cs[i] > 65535 THEN <<FALSE, <<>> >> ELSE <<TRUE, MapCat(LAMBDA c : U8Enc(f(c)), cs)>>
Coll(c, ci) == IF c >= 512 THEN <<c>> ELSE IF ci THEN TabCi[c + 1] ELSE TabCs[c + 1]
Keys(cs, ci) == MapCat(LAMBDA c : Coll(c, ci), cs)
Normalize(s, ci) == LET cs == Lenient(s) IN IF \E i \in 1..Len(cs) : cs[i] > 65535 THEN <<FALSE, <<>> >> ELSE <<TRUE, U8Text(Keys(cs, ci))>>
(* order of two sequences of keys *)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1) ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i + 1)
RECURSIVE RStrip(_)
RStrip(cs) == IF cs # <<>> /\ cs[Len(cs)] = 32 THEN RStrip(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
Cmp(a, b, ci, strip) == LET x == Lenient(a)
                            y == Lenient(b)
                        IN CmpAt(Keys(IF strip THEN RStrip(x) ELSE x, ci), Keys(IF strip THEN RStrip(y) ELSE y, ci), 1)
SWith(a, b, ci) == LET x == Lenient(a)
                       k == Keys(Lenient(b), ci)
                   IN \E n \in 0..Len(x) : Keys(SubSeq(x, 1, n), ci) = k

(* ---- GSM 03.38 ---- *)
Greek(c) == CASE c = 916 -> 16 [] c = 934 -> 18 [] c = 915 -> 19 [] c = 923 -> 20 [] c = 937 -> 21 [] c = 928 -> 22 [] c = 936 -> 23 [] c = 931 -> 24
              [] c = 920 -> 25 [] c = 926 -> 26 [] OTHER -> -1
(* code of a character, two septets when above 255; unk when there is none in the plan (0 default, 1 with the extension table) *)
GsmOf(c, plan, unk) == LET g == IF c < 256 THEN TabToGsm[c + 1] ELSE IF c = 8364 /\ plan = 1 THEN 6912 + 101 ELSE Greek(c)
                       IN IF g < 0 \/ (plan = 0 /\ g > 255) THEN unk ELSE g
GsmBytes(c, plan, unk) == LET g == GsmOf(c, plan, unk) IN IF g > 255 THEN <<g \div 256, g % 256>> ELSE <<g>>
ToGsm(s) == MapCat(LAMBDA c : GsmBytes(c, 1, 46), Lenient(s))
GsmIsOk(s, plan) == LET cs == Lenient(s) IN \A i \in 1..Len(cs) : GsmOf(cs[i], plan, -1) >= 0
GsmChr(v) == IF TabGsm[v + 1] < 0 THEN 46 ELSE TabGsm[v + 1]
(* <<number of invalid codes, text>> *)
RECURSIVE FromGsm_(_, _, _, _, _)
FromGsm_(s, i, plan, bad, acc) == IF i > Len(s) THEN <<bad, acc>>
    ELSE IF s[i] >= 128 THEN FromGsm_(s, i + 1, plan, bad + 1, Append(acc, 46))
    ELSE IF s[i] # 27 THEN FromGsm_(s, i + 1, plan, bad, acc \o U8Enc(GsmChr(s[i])))
    ELSE IF plan = 0 \/ i = Len(s) THEN FromGsm_(s, i + 1, plan, bad + 1, Append(acc, 46))
    ELSE IF s[i+1] >= 128 THEN FromGsm_(s, i + 2, plan, bad + 1, Append(acc, 46))
    ELSE FromGsm_(s, i + 2, plan, bad, acc \o U8Enc(GsmChr(s[i+1] + 128)))
FromGsm(s, plan) == FromGsm_(s, 1, plan, 0, <<>>)
FromGsmHex(s) == IF ~HexDecOk(s) THEN <<FALSE, <<>> >>
    ELSE LET b == HexDec(s)
             r == FromGsm(b, 1)
         IN IF (\E i \in 1..Len(b) : b[i] > 127) \/ r[1] > 0 THEN <<FALSE, <<>> >> ELSE <<TRUE, r[2]>>
(* CIMD 2 *)
CimdTab == << <<64, <<79, 97>> >>, <<163, <<76, 45>> >>, <<165, <<89, 45>> >>, <<232, <<101, 96>> >>, <<233, <<101, 39>> >>, <<249, <<117, 96>> >>,
   <<236, <<105, 96>> >>, <<242, <<111, 96>> >>, <<199, <<67, 44>> >>, <<216, <<79, 47>> >>, <<248, <<111, 47>> >>, <<197, <<65, 42>> >>, <<229, <<97, 42>> >>,
   <<916, <<103, 100>> >>, <<95, <<45, 45>> >>, <<934, <<103, 102>> >>, <<915, <<103, 103>> >>, <<923, <<103, 108>> >>, <<937, <<103, 111>> >>,
   <<928, <<103, 112>> >>, <<936, <<103, 105>> >>, <<931, <<103, 115>> >>, <<920, <<103, 116>> >>, <<926, <<103, 120>> >>, <<198, <<65, 69>> >>,
   <<230, <<97, 101>> >>, <<223, <<115, 115>> >>, <<201, <<69, 39>> >>, <<34, <<113, 113>> >>, <<164, <<111, 120>> >>, <<161, <<33, 33>> >>,
   <<196, <<65, 34>> >>, <<214, <<79, 34>> >>, <<209, <<78, 126>> >>, <<220, <<85, 34>> >>, <<167, <<115, 111>> >>, <<191, <<63, 63>> >>,
   <<228, <<97, 34>> >>, <<246, <<111, 34>> >>, <<241, <<110, 126>> >>, <<252, <<117, 34>> >>, <<224, <<97, 96>> >>,
   <<124, <<88, 88, 95, 33, 33>> >>, <<94, <<88, 88, 95, 103, 108>> >>, <<8364, <<88, 88, 101>> >>, <<123, <<88, 88, 40>> >>, <<125, <<88, 88, 41>> >>,
   <<91, <<88, 88, 60>> >>, <<93, <<88, 88, 62>> >>, <<126, <<88, 88, 61>> >>, <<92, <<88, 88, 47>> >> >>
CimdPlain(c) == c \in {64, 36, 10, 13} \/ c \in 32..35 \/ c \in 37..63 \/ c \in 65..90 \/ c \in 97..122
CimdOf(c) == LET k == {i \in 1..Len(CimdTab) : CimdTab[i][1] = c}
             IN IF k # {} THEN <<95>> \o CimdTab[Min(k)][2] ELSE IF CimdPlain(c) THEN <<c>> ELSE <<46>>
RECURSIVE ToCimd_(_, _, _)
(* bytes which are not text are dropped *)
ToCimd_(s, i, acc) == IF i > Len(s) THEN acc
    ELSE LET n == U8Len(s, i) IN IF n = 0 THEN ToCimd_(s, i + 1, acc) ELSE ToCimd_(s, i + n, acc \o CimdOf(U8Val(s, i, n)))
ToCimd(s) == ToCimd_(s, 1, <<>>)
CimdAlt(c) == CASE c = 93 -> 197 [] c = 125 -> 229 [] c = 91 -> 196 [] c = 92 -> 214 [] c = 94 -> 220 [] c = 123 -> 228 [] c = 124 -> 246 [] c = 126 -> 252 [] OTHER -> 46
RECURSIVE FromCimd_(_, _, _, _)
FromCimd_(s, i, bad, acc) == IF i > Len(s) THEN <<bad, acc>>
    ELSE IF s[i] # 95 THEN FromCimd_(s, i + 1, bad, acc \o U8Enc(IF CimdPlain(s[i]) THEN s[i] ELSE CimdAlt(s[i])))
    ELSE LET k == {j \in 1..Len(CimdTab) : StartsAt(s, i + 1, CimdTab[j][2])}
         IN IF k # {} THEN LET j == Min(k) IN FromCimd_(s, i + 1 + Len(CimdTab[j][2]), bad, acc \o U8Enc(CimdTab[j][1]))
            (* the sequence for an escaped line feed *)
            ELSE IF StartsAt(s, i + 1, <<88, 88, 10>>) THEN FromCimd_(s, i + 4, bad, Append(acc, 10))
            ELSE FromCimd_(s, i + 1, bad + 1, Append(acc, 46))
FromCimd(s) == FromCimd_(s, 1, 0, <<>>)

(* packed septets, least significant bits first *)
Bit(v, k) == (v \div (2 ^ k)) % 2
SeptetBits(sp) == FlattenSeq([i \in 1..Len(sp) |-> [k \in 1..7 |-> Bit(sp[i], k - 1)]])
ByteBits(b) == FlattenSeq([i \in 1..Len(b) |-> [k \in 1..8 |-> Bit(b[i], k - 1)]])
BitAt(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0
PackBits(bits) == [j \in 1..((Len(bits) + 7) \div 8) |-> FoldLeft(LAMBDA a, k : a + (BitAt(bits, (8 * (j - 1)) + k + 1) * (2 ^ k)), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
Septet(bits, i) == FoldLeft(LAMBDA a, k : a + (BitAt(bits, (7 * (i - 1)) + k + 1) * (2 ^ k)), 0, <<0, 1, 2, 3, 4, 5, 6>>)
(* header of h bytes, padded up to a septet, then the septets *)
Pack7(hdr, sp) == LET hb == ByteBits(hdr)
                      padn == (7 - (Len(hb) % 7)) % 7
                  IN PackBits(hb \o [k \in 1..padn |-> 0] \o SeptetBits(sp))
NSept7(hdr, sp) == (((8 * Len(hdr)) + 6) \div 7) + Len(sp)
Septets7(cs, plan, unk) == MapCat(LAMBDA c : GsmBytes(c, plan, unk), cs)
Unpack7(b, n, h) == LET bits == ByteBits(b)
                        first == (((8 * h) + 6) \div 7)
                    IN [i \in 1..(IF n > first THEN n - first ELSE 0) |-> Septet(bits, first + i)]
(* the packed text up to a zero byte, and up to the first invalid character *)
ZText(s) == LET z == FindChr(s, 1, 0) IN IF z = 0 THEN s ELSE SubSeq(s, 1, z - 1)

(* ---- the calls ---- *)
Appends(e, x) == e.out = e.pre \o x /\ e.z
Total(e, x) == Appends(e, x) /\ e.ret = 0
(* r = <<ok, text>> *)
Partial(e, r) == IF r[1] THEN Appends(e, r[2]) /\ e.ret = 0 ELSE e.ret < 0 /\ e.out = e.pre
Tail_(e) == SubSeq(e.out, Len(e.pre) + 1, Len(e.out))
Kept(e) == Len(e.out) >= Len(e.pre) /\ SubSeq(e.out, 1, Len(e.pre)) = e.pre

PunyCps(b) == [i \in 1..(Len(b) \div 4) |-> (b[(4*i)-2] * 65536) + (b[(4*i)-1] * 256) + b[4*i]]

Call(e) == CASE e.op = "hex" -> Total(e, HexEnc(e.in))
    [] e.op = "unhex" -> Partial(e, <<HexDecOk(e.in), HexDec(e.in)>>)
    [] e.op = "slashes" -> Total(e, Slashes(e.in, e.a, e.b))
    [] e.op = "unslashes" -> Total(e, Unslashes(e.in, e.a, e.b))
    [] e.op = "expandenv" -> Partial(e, Expand(e.in))
    [] e.op = "unquoted" -> Total(e, Unquote(e.in))
    [] e.op = "urlenc" -> Total(e, UrlEnc(e.in))
    [] e.op = "urldec" -> Total(e, UrlDec(e.in))
    [] e.op = "urldec_inplace" -> e.out = UrlDec(e.pre \o e.in) /\ e.z
    [] e.op = "xmlesc" -> Total(e, XmlEsc(e.in))
    [] e.op = "xmlunesc" -> LET r == XmlUn(e.in) IN IF r[1] = "any" THEN (IF e.ret < 0 THEN e.out = e.pre ELSE Kept(e)) ELSE Partial(e, <<r[1] = "ok", r[2]>>)
    [] e.op = "qpe" -> Kept(e) /\ e.z /\ (IF e.in = <<>> THEN Tail_(e) \in {<<>>, <<61, 13, 10>>} ELSE QpOk(e.in, Tail_(e)))
    [] e.op = "unqpe" -> Total(e, QpDec(e.in))
    [] e.op = "b64" -> Kept(e) /\ e.z /\ B64Ok(e.in, e.args[1], FALSE, Tail_(e))
    [] e.op = "b64url" -> Kept(e) /\ e.z /\ B64Ok(e.in, e.args[1], TRUE, Tail_(e))
    [] e.op = "unb64" -> Partial(e, B64Dec(e.in, FALSE))
    [] e.op = "unb64url" -> Partial(e, B64Dec(e.in, TRUE))
    [] e.op = "csv" -> Total(e, CsvEsc(e.in, e.args[1]))
    [] e.op = "punyvec" -> Total(e, Puny(PunyCps(e.in)))
    [] e.op = "punystr" -> IF U8Valid(e.in) THEN (e.in = <<>> /\ e.out = e.pre \o <<45>>) \/ Total(e, Puny(U8Prefix(e.in)[1])) ELSE e.ret < 0
    [] e.op = "idna" -> LET r == Idna(e.in, e.args[1]) IN IF r[1] = 0 THEN e.ret < 0 /\ Kept(e) ELSE e.ret = r[1] /\ Appends(e, r[2])
    [] e.op = "fromlatin1" -> Total(e, FromLatin(e.in, FALSE))
    [] e.op = "fromlatin9" -> Total(e, FromLatin(e.in, TRUE))
    [] e.op = "tolatin1" -> Partial(e, ToLatin1(e.in, e.args[1]))
    [] e.op = "toucs2le" -> Partial(e, ToUcs2(e.in, Le))
    [] e.op = "toucs2be" -> Partial(e, ToUcs2(e.in, Be))
    [] e.op = "toucs2hex" -> Partial(e, ToUcs2(e.in, BeHex))
    [] e.op = "fromucs2be" -> Partial(e, FromUcs2(e.in, TRUE))
    [] e.op = "fromucs2le" -> Partial(e, FromUcs2(e.in, FALSE))
    [] e.op = "lower" -> Partial(e, CaseMap(e.in, Lower))
    [] e.op = "upper" -> Partial(e, CaseMap(e.in, Upper))
    [] e.op = "normalize" -> Partial(e, Normalize(e.in, e.args[1] = 1))
    [] e.op = "uchr" -> Total(e, U8Enc(e.args[1]))
    [] e.op = "togsm" -> Total(e, ToGsm(e.in))
    [] e.op = "togsmhex" -> Total(e, HexEnc(ToGsm(e.in)))
    [] e.op = "gsmok" -> e.out = e.pre /\ e.ret = (IF GsmIsOk(e.in, e.args[1]) THEN 1 ELSE 0)
    [] e.op = "fromgsm" -> LET r == IF e.args[1] = 2 THEN FromCimd(e.in) ELSE FromGsm(e.in, e.args[1]) IN e.ret = r[1] /\ Appends(e, r[2])
    [] e.op = "fromgsmhex" -> Partial(e, FromGsmHex(e.in))
    [] e.op = "tocimd" -> Total(e, ToCimd(e.in))
    [] e.op = "togsm7" ->
        (* args: start of the packed data (what lies between it and the end is the header), unknown, plan, room *)
        LET st == e.args[1]
            hdr == Sub(e.pre, st + 1, Len(e.pre))
            t == ZText(e.in)
            cs == U8Prefix(t)[1]
            sp == Septets7(cs, e.args[3], e.args[2])
            p == Pack7(hdr, sp)
            (* the room counts what is written from the last boundary of 7 bytes of the header *)
            used == Len(p) - ((Len(hdr) \div 7) * 7)
        IN IF (\E i \in 1..Len(cs) : GsmOf(cs[i], e.args[3], e.args[2]) < 0) \/ (e.args[4] >= 0 /\ used > e.args[4]) \/ ~U8Valid(t) THEN e.ret < 0
           ELSE e.ret = NSept7(hdr, sp) /\ e.out = SubSeq(e.pre, 1, st) \o p /\ e.z
    [] e.op = "fromgsm7" ->
        (* args: number of septets, size of the header *)
        LET sp == Unpack7(e.in, e.args[1], e.args[2])
            cut == sp # <<>> /\ FromGsm(sp, 1)[1] > 0
        IN IF cut THEN e.ret < 0 ELSE Total(e, FromGsm(sp, 1)[2])
    [] OTHER -> FALSE

Utf8(e) == LET p == U8Prefix(e.in)
               z == Append(p[1], IF p[2] = Len(e.in) THEN 0 ELSE -1)
           IN /\ e.len = (IF p[2] = Len(e.in) THEN Len(p[1]) ELSE -1)
              /\ e.skip = p[2]
              /\ e.chars = Append(p[1], -1) /\ e.off = p[2]
              /\ e.pschars = Append(p[1], -1) /\ e.psleft = Len(e.in) - p[2]
              /\ e.cl = (IF e.in = <<>> THEN -1 ELSE U8Len(e.in, 1))
              /\ "zlen" \in DOMAIN e => e.zlen = e.len /\ e.zchars = z
HexC(e) == LET n == Len(e.in)
               k == IF e.size <= 0 THEN 0 ELSE Min({n, (e.size - 1) \div 2})
               txt == MapCat(LAMBDA b : <<HexL(b \div 16), HexL(b % 16)>>, SubSeq(e.in, 1, k))
           IN /\ e.ret = 2 * n
              /\ e.size > 0 => SubSeq(e.out, 1, (2 * k) + 1) = Append(txt, 0) /\ \A i \in ((2 * k) + 2)..Len(e.out) : e.out[i] = 85
HexD(e) == LET n == Len(e.in)
               k == IF e.size <= 0 THEN 0 ELSE Min({n \div 2, e.size})
               s == SubSeq(e.in, 1, 2 * k)
           IN IF n % 2 = 1 \/ ~HexDecOk(s) THEN e.ret < 0
              ELSE e.ret = n \div 2 /\ SubSeq(e.out, 1, k) = HexDec(s) /\ \A i \in (k + 1)..Len(e.out) : e.out[i] = 85
Compare(e) == /\ e.cs = Cmp(e.in, e.pre, FALSE, FALSE) /\ e.ci = Cmp(e.in, e.pre, TRUE, FALSE)
              (* with trailing blanks ignored, the order of characters below the blank is left open *)
              /\ LET low == \E c \in Range(e.in) \cup Range(e.pre) : c < 32
                     Same(r, x) == IF low THEN (r = 0) = (x = 0) ELSE r = x
                 IN Same(e.css, Cmp(e.in, e.pre, FALSE, TRUE)) /\ Same(e.cis, Cmp(e.in, e.pre, TRUE, TRUE))
              /\ e.eq = (e.cs = 0) /\ e.ieq = (e.ci = 0)
              /\ e.sw = SWith(e.in, e.pre, FALSE) /\ e.isw = SWith(e.in, e.pre, TRUE)
CharTab(e) == /\ e.lo = Lower(e.c) /\ e.up = Upper(e.c)
              /\ e.gd = GsmOf(e.c, 0, -7) /\ e.ge = GsmOf(e.c, 1, -7)
              /\ e.gl = (LET g == GsmOf(e.c, 1, -1) IN IF g < 0 THEN -1 ELSE IF g > 255 THEN 2 ELSE 1)
              /\ e.c < 256 => e.fg = (IF TabGsm[e.c + 1] < 0 THEN -7 ELSE TabGsm[e.c + 1]) /\ e.hx = HexVal(e.c)
Step(e) == CASE e.op = "utf8" -> Utf8(e)
             [] e.op = "hexc" -> HexC(e)
             [] e.op = "hexd" -> HexD(e)
             [] e.op = "cmp" -> Compare(e)
             [] e.op = "chartab" -> CharTab(e)
             [] OTHER -> Call(e)
=============================================================================
