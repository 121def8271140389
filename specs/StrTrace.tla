----------------------------- MODULE StrTrace -----------------------------
EXTENDS Str, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "begin" -> Begin
            [] e.op = "new" -> New(e)
            [] e.op = "add" -> Add(e)
            [] e.op = "addnc" -> AddNC(e)
            [] e.op = "adduc" -> AddUc(e)
            [] e.op = "addsb" -> AddSb(e)
            [] e.op = "splice" -> Splice(e)
            [] e.op = "splicenc" -> SpliceNC(e)
            [] e.op = "cut" -> Cut(e)
            [] e.op = "trim" -> Trim(e)
            [] e.op = "set" -> Set(e)
            [] e.op = "setsb" -> SetSb(e)
            [] e.op = "hold" -> Hold(e)
            [] e.op = "detach" -> Detach(e)
            [] e.op = "addf" -> AddF(e)
            [] e.op = "fill" -> Fill(e)
            [] e.op = "search" -> Search(e)
            [] e.op = "cmp" -> Compare(e)
            [] e.op = "window" -> Window(e)
            [] e.op = "sanit" -> Sanit(e)
            [] e.op = "numf" -> NumF(e)
            [] e.op = "doublef" -> DoubleF(e)
            [] e.op = "dur" -> Dur(e)
            [] e.op = "pkcs7" -> Pkcs7(e)
            [] e.op = "getline" -> GetLine(e)
            [] e.op = "fread" -> FRead(e)
            [] e.op = "read" -> Read(e)
            [] e.op = "write" -> Write(e)
            [] e.op = "src" -> Src(e.v)
            [] e.op = "pnew" -> PNew(e)
            [] e.op = "pcut" -> PCut(e)
            [] e.op = "pat" -> PAt(e)
            [] e.op = "pchr" -> PChr(e)
            [] e.op = "pdata" -> PData(e)
            [] e.op = "pget" -> PGet(e)
            [] e.op = "pspan" -> PSpan(e)
            [] e.op = "ptrim" -> PTrim(e)
            [] e.op = "pc" -> PC(e)
            [] e.op = "phex" -> PHex(e)
            [] e.op = "pgets" -> PGets(e)
            [] e.op = "pcmp" -> PCmp(e)
            [] e.op = "plen" -> PLen(e)
            [] e.op = "pblock" -> PBlock(e)
            [] e.op = "pcopyv" -> PCopyV(e)
            [] e.op = "psplit" -> PSplit(e)
            [] e.op = "pcsv" -> PCsv(e)
            [] OTHER -> FALSE
       /\ ev' = e
View == l
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
