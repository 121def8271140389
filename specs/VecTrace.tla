------------------------------ MODULE VecTrace ------------------------------
EXTENDS Vec, VPTrace
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "reset" -> Reset(e.kind)
            [] e.op = "append" -> Append_(e.v, e.x, e.tab, e.ok)
            [] e.op = "dup" -> Append_(e.v, vec[e.v][e.at + 1], e.tab, e.ok)
            [] e.op = "insert" -> Splice(e.v, e.at, 0, <<e.x>>, e.tab, e.ok)
            [] e.op = "push" -> Splice(e.v, 0, 0, <<e.x>>, e.tab, e.ok)
            [] e.op = "pop" -> Splice(e.v, 0, 1, <<>>, e.tab, e.ok)
            [] e.op = "remlast" -> Splice(e.v, Len(vec[e.v]) - 1, 1, <<>>, e.tab, e.ok)
            [] e.op = "remove" -> Splice(e.v, e.at, 1, <<>>, e.tab, e.ok)
            [] e.op = "skip" -> Splice(e.v, 0, e.n, <<>>, e.tab, e.ok)
            [] e.op = "clip" -> Clip(e.v, e.n, e.tab, e.ok)
            [] e.op = "shrink" -> Clip(e.v, Len(vec[e.v]) - e.n, e.tab, e.ok)
            [] e.op = "splice" -> e.res /\ Splice(e.v, e.at, e.rm, e.xs, e.tab, e.ok)
            [] e.op = "extend" -> Extend(e.v, e.xs, e.tab, e.ok)
            [] e.op = "exttab" -> Extend(e.v, vec[e.src], e.tab, e.ok)
            [] e.op = "deepext" -> Extend(e.v, vec[e.src], e.tab, e.ok)
            [] e.op = "copy" -> To(e.v, vec[e.src], e.tab, e.ok)
            [] e.op = "growlen0" -> Extend(e.v, [i \in 1..e.n |-> 0], e.tab, e.ok)
            [] e.op = "growlen" -> Extend(e.v, [i \in 1..e.n |-> e.x + ((i - 1) % 50)], e.tab, e.ok)
            [] e.op = "grow" -> Grow(e.v, e.n, e.pred, e.size0, e.size1, e.zero, e.tab, e.ok)
            [] e.op = "optimize" -> Optimize(e.v, e.r1, e.r2, e.size1, e.tab, e.ok)
            [] e.op = "clear" -> To(e.v, <<>>, e.tab, e.ok)
            [] e.op = "wipe" -> To(e.v, <<>>, e.tab, e.ok)
            [] e.op = "sort" -> Sort(e.v, e.tab, e.ok)
            [] e.op = "qsort" -> Sort(e.v, e.tab, e.ok)
            [] e.op = "uniq" -> Uniq(e.v, e.dl, e.dels, e.tab, e.ok)
            [] e.op = "shuffle" -> Shuffle(e.v, e.tab, e.ok)
            [] e.op = "bisect" -> Bisect(e.v, e.x, e.p, e.found, e.tab, e.ok)
            [] e.op = "find" -> Find(e.v, e.x, e.sorted, e.p, e.has, e.tab, e.ok)
            [] e.op = "diff" -> Diff(e.v, e.w, e.mask, e.pre, e.add, e.del, e.inter, e.tab2, e.tab, e.ok)
            [] e.op = "nset" -> NSet(e.sgn, e.tab)
            [] e.op = "nsort" -> NSort(e.tab)
            [] e.op = "nuniq" -> NUniq(e.tab)
            [] e.op = "nbisect" -> NBisect(e.x[1], e.p, e.found, e.has)
            [] OTHER -> FALSE
       /\ ev' = e.op
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
