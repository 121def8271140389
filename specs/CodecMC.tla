------------------------------ MODULE CodecMC ------------------------------
(* Laws of the codecs on every text of up to MaxLen bytes of a small alphabet, and on every string of up to MaxCp code points. *)
EXTENDS Codec
CONSTANTS Alphabet, MaxLen, Cps, MaxCp
VARIABLES s, cps
RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN {<<>>} ELSE LET p == Strings(A, n - 1) IN p \cup {Append(x, a) : x \in p, a \in A}
AlphaVal == {0, 10, 13, 34, 37, 38, 46, 51, 59, 61, 65, 92, 195, 169}
CpsVal == {45, 97, 122, 233, 1632, 20013, 128512}
Init == ev = [op |-> "none"] /\ \/ (s \in Strings(Alphabet, MaxLen) /\ cps = <<>>)
                                \/ (s = <<>> /\ cps \in Strings(Cps, MaxCp))
Next == UNCHANGED <<ev, s, cps>>
Spec == Init /\ [][Next]_<<ev, s, cps>>
HexLaw == HexDecOk(HexEnc(s)) /\ HexDec(HexEnc(s)) = s
UrlLaw == UrlDec(UrlEnc(s)) = s
XmlLaw == XmlUn(XmlEsc(s)) = <<"ok", XmlStripped(s)>>
SlashLaw == Unslashes(Slashes(s, <<34, 10>>, <<34, 110>>), <<34, 110>>, <<34, 10>>) = s
QuoteLaw == Unquote(Slashes(s, <<34, 10, 13>>, <<34, 110, 114>>)) = s
B64Law == \A w \in {-1, 0, 4, 8} : \A url \in BOOLEAN : B64Dec(B64Enc(s, w, url) \o <<13, 10>>, url) = <<TRUE, s>> /\ B64Ok(s, -1, url, B64Enc(s, -1, url))
LatinLaw == U8Valid(FromLatin(s, FALSE)) /\ U8Valid(FromLatin(s, TRUE)) /\ (U8Valid(s) => FromLatin(s, FALSE) = s)
Ucs2Law == LET r == ToUcs2(s, BeHex) IN r[1] => FromUcs2(r[2], TRUE) = <<TRUE, U8Text(Lenient(s))>>
GsmLaw == LET b == ToGsm(s) IN \A i \in 1..Len(b) : b[i] < 128
U8Law == LET t == U8Text(cps) IN U8Prefix(t) = <<cps, Len(t)>>
PunyLaw == UnPuny(Puny(cps)) = cps
CmpLaw == Cmp(s, s, TRUE, FALSE) = 0 /\ SWith(s, s, FALSE) /\ Cmp(s, U8Text(cps), TRUE, TRUE) = 0 - Cmp(U8Text(cps), s, TRUE, TRUE)
(* every character of the alphabet decodes to something that encodes back to its code *)
GsmTabLaw == \A v \in 0..255 : TabGsm[v + 1] >= 0 => GsmOf(TabGsm[v + 1], 1, -1) = (IF v < 128 THEN v ELSE 6912 + v - 128)
CimdLaw == \A i \in 1..Len(CimdTab) : FromCimd(CimdOf(CimdTab[i][1])) = <<0, U8Enc(CimdTab[i][1])>>
GsmPackLaw == LET sp == Map(LAMBDA b : b % 128, s) IN \A h \in 0..3 :
    LET hdr == [i \in 1..h |-> 255] IN Unpack7(Pack7(hdr, sp), NSept7(hdr, sp), h) = sp
Laws == /\ HexLaw /\ UrlLaw /\ XmlLaw /\ SlashLaw /\ QuoteLaw /\ B64Law /\ LatinLaw /\ Ucs2Law /\ GsmLaw /\ U8Law /\ PunyLaw /\ CmpLaw /\ GsmPackLaw
ASSUME GsmTabLaw /\ CimdLaw
=============================================================================
