------------------------------ MODULE ChartTrace ------------------------------
(* Conformance of display_tsv.html: every recorded page must be the chart of its *)
(* two tables, requests first.                                                   *)
EXTENDS Chart, TLC, Json, IOUtils
CONSTANT Watch
VARIABLES l, err, cov
vars == <<l, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
Init == l = 1 /\ err = <<>> /\ cov = [page |-> 0, rows |-> 0, lines |-> 0, notes |-> 0, single |-> 0, flat |-> 0]
Verdict ==
  IF Ev.exc # "" THEN "page-raises"
  ELSE IF Len(Ev.charts) # Len(Ev.tables) THEN "charts"
  ELSE LET bad == {ChartVerdict(Ev.charts[i], Ev.tables[i]) : i \in 1..Len(Ev.tables)} \ {""}
       IN IF bad = {} THEN "" ELSE CHOOSE x \in bad : TRUE
Sum(f) == FoldLeft(LAMBDA a, i : a + f[i], 0, [i \in 1..Len(f) |-> i])
Page ==
  /\ l <= N /\ err = <<>> /\ Ev.ev = "new"
  /\ \E v \in {Verdict} :
       IF v # "" /\ v \in Watch THEN err' = <<v, l>> /\ UNCHANGED <<l, cov>>
       ELSE /\ l' = l + 1 /\ UNCHANGED err
            /\ cov' = [page |-> cov.page + 1,
                       rows |-> cov.rows + Sum([i \in 1..Len(Ev.tables) |-> Len(Ev.tables[i].rows)]),
                       lines |-> cov.lines + Sum([i \in 1..Len(Ev.charts) |-> Len(Ev.charts[i].lines)]),
                       notes |-> cov.notes + Sum([i \in 1..Len(Ev.charts) |-> Len(Ev.charts[i].notes)]),
                       single |-> cov.single + (IF Len(Ev.tables[1].cols) = 1 THEN 1 ELSE 0),
                       flat |-> cov.flat + (IF Cardinality({r.sizes : r \in ToSet(Ev.tables[1].rows)}) = 1 THEN 1 ELSE 0)]
Next == Page
Spec == Init /\ [][Next]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]
Done == (l > N) => PrintT("DONE " \o ToJson(cov))
=============================================================================
