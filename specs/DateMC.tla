------------------------------- MODULE DateMC -------------------------------
(* Laws of the calendar, of the zones and of the formats, around every interesting day of some years. *)
EXTENDS Date
CONSTANTS Years, Hours
VARIABLE t
YearsVal == {1972, 2019}
HoursVal == {0, 7199, 7200, 57600}
YearsBig == {1902, 1904, 1970, 1972, 1999, 2000, 2001, 2019, 2020, 2024, 2038, 2098}
HoursBig == {0, 1, 3599, 3600, 7199, 7200, 10800, 43200, 54000, 57600, 86399}
MCInit == now = <<11574, 6400>> /\ ev = [op |-> "none"] /\ \E y \in Years : \E zz \in 0..8 : \E m \in 1..12 : t = <<Days(y, m, 1), 0>> /\ z = zz
MCNext == /\ t[2] = 0
          /\ \/ Civil(t[1])[3] < MDays(Civil(t[1])[1], Civil(t[1])[2]) /\ t' = <<t[1] + 1, 0>>
             \/ \E s \in Hours : t' = <<t[1], s>>
          /\ UNCHANGED <<z, now, ev>>
Spec == MCInit /\ [][MCNext]_<<z, now, ev, t>>
CivilLaw == LET c == Civil(t[1]) IN Days(c[1], c[2], c[3]) = t[1] /\ c[3] \in 1..MDays(c[1], c[2])
InstantLaw == t \in Instants(z, Local(z, t)) /\ Cardinality(Instants(z, Local(z, t))) <= 2
(* what is formatted is parsed back, in GMT and in the zone *)
FormatLaw == /\ IsoParse(z, now, FmtG(t), 0) = Ok({t})
             /\ IsoParse(z, now, FmtGm(t, 7), 2) = Ok({t})
             /\ IsoParse(z, now, FmtL(z, t), 0) = Ok({t})
             /\ AnyParse(z, now, FmtLm(z, t, 999)) = Ok({t})
RoundLaw == /\ \A u \in {"curday", "curmonth", "curyear"} : \E r \in Instants(z, DayStart(t[1])) \cup Instants(z, DayStart(FirstOfMonth(Local(z, t)[1], 0))) \cup
                  Instants(z, DayStart(Local(z, t)[1])) \cup Instants(z, DayStart(Days(Civil(Local(z, t)[1])[1], 1, 1))) : RoundOk(z, u, t, 0, r) /\ Leq(r, t)
            /\ \A f \in 0..6 : LET w == WeekStart(Local(z, t)[1], f) IN WDay(w) = f /\ w <= Local(z, t)[1] /\ Local(z, t)[1] < w + 7
Laws == CivilLaw /\ InstantLaw /\ FormatLaw /\ RoundLaw
=============================================================================
