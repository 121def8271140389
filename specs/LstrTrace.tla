---------------------------- MODULE LstrTrace ----------------------------
EXTENDS Lstr, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "begin" -> Begin
            [] e.op = "end" -> Begin
            [] e.op = "lit" -> Lit(e)
            [] e.op = "null" -> Null(e)
            [] e.op = "sub" -> Sub(e)
            [] e.op = "dup" -> Dup(e)
            [] e.op = "dupz" -> DupZ(e)
            [] e.op = "dupc" -> DupC(e)
            [] e.op = "rev" -> Rev(e)
            [] e.op = "urev" -> URev(e)
            [] e.op = "tcase" -> TCase(e)
            [] e.op = "trim" -> Trim(e)
            [] e.op = "trunc" -> Trunc(e)
            [] e.op = "pkcs7" -> Pkcs7(e)
            [] e.op = "hexenc" -> DoHexEnc(e)
            [] e.op = "hexdec" -> DoHexDec(e)
            [] e.op = "hhexdec" -> DoHHexDec(e)
            [] e.op = "copy" -> Copy(e)
            [] e.op = "cat" -> DoCat(e)
            [] e.op = "persist" -> Persist(e)
            [] e.op = "transfer" -> Transfer(e)
            [] e.op = "transfersb" -> TransferSb(e)
            [] e.op = "inplace" -> InPlace(e)
            [] e.op = "file" -> File(e)
            [] e.op = "cmp" -> Compare(e)
            [] e.op = "about" -> About(e)
            [] e.op = "like" -> Like(e)
            [] e.op = "cstr" -> CStr(e)
            [] e.op = "pstr" -> PStr(e)
            [] OTHER -> FALSE
       /\ ev' = e
TView == l
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
