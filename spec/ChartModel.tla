------------------------------ MODULE ChartModel ------------------------------
(* The rules of the chart on every small table: a chart drawn with whole-pixel   *)
(* scales is accepted, the notes of a table cut it into its streams, and a chart *)
(* with two points exchanged, a note left out or a line scaled by itself is not. *)
EXTENDS Chart
CONSTANTS MaxRows, MaxSize, MaxCols
VARIABLE tab
Streams == {"a", "b"}
Tables == UNION {UNION {
            [cols : {[k \in 1..c |-> <<"one", "two", "three">>[k]]}, title : {"T"},
             rows : {r \in [1..m -> [num : 1..MaxRows, name : Streams, sizes : [1..c -> 1..MaxSize]]] :
                       \A i \in 1..m : r[i].num = i}]
            : m \in 1..MaxRows} : c \in 1..MaxCols}
Init == tab \in Tables
Next == UNCHANGED tab
Spec == Init /\ [][Next]_tab
X(i) == 100 * i
Y(s) == 1000 - 100 * s
Line(t, k) == [colour |-> k, points |-> [i \in 1..NumRows(t) |-> <<X(i), Y(t.rows[i].sizes[k])>>]]
Drawn(t) ==
  [size |-> <<5000, 5000>>, titles |-> <<t.title>>,
   lines |-> [k \in 1..Len(t.cols) |-> Line(t, k)],
   labels |-> [k \in 1..Len(t.cols) |-> [text |-> t.cols[k], colour |-> k,
                                         at |-> <<X(NumRows(t)) + 15, Y(t.rows[NumRows(t)].sizes[k])>>]],
   notes |-> [i \in 1..Len(Begins(t)) |-> [text |-> t.rows[Begins(t)[i]].name, at |-> <<X(Begins(t)[i]), 0>>]]]
Good == ChartVerdict(Drawn(tab), tab) = ""
\* the notes give the streams back
Cuts == LET b == Begins(tab) IN
        /\ b # <<>> /\ b[1] = 1
        /\ \A i \in 1..NumRows(tab) :
             LET last == CHOOSE j \in 1..Len(b) : b[j] <= i /\ (j = Len(b) \/ b[j+1] > i)
             IN tab.rows[b[last]].name = tab.rows[i].name
\* wrong charts are told
Lost == [Drawn(tab) EXCEPT !.notes = Tail(@)]
Higher(c, k, i) == [c EXCEPT !.lines[k].points[i][2] = @ - 100]
Bad == /\ ChartVerdict(Lost, tab) # ""
       /\ \A k \in 1..Len(tab.cols) : \A i \in 1..(NumRows(tab) - 1) :
            (Cardinality({r.sizes[j] : r \in ToSet(tab.rows), j \in 1..Len(tab.cols)}) >= 3)
              => ChartVerdict(Higher(Drawn(tab), k, i), tab) # ""
=============================================================================
