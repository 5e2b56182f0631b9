-------------------------------- MODULE Chart --------------------------------
(* The chart of a table of sizes.  A table has columns (the codecs) and rows     *)
(* [num, name, sizes]: the number of the message, its stream, and its size for   *)
(* every column.  Positions are in hundredths of a pixel; y grows downwards.     *)
EXTENDS Util
NumRows(t) == Len(t.rows)
\* a note stands where a new stream begins
StartsStream(t, i) == i = 1 \/ t.rows[i].name # t.rows[i-1].name
Begins(t) == SelectSeq([i \in 1..NumRows(t) |-> i], LAMBDA i : StartsStream(t, i))

\* positions p (a sequence of integers) are a linear picture of the numbers n, growing
\* (dir = 1) or falling (dir = -1) with them; a hundredth of a pixel is the error allowed
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Linear(n, p, dir) ==
  LET I == 1..Len(n)
      lo == CHOOSE i \in I : \A j \in I : n[i] <= n[j]
      hi == CHOOSE i \in I : \A j \in I : n[i] >= n[j]
      span == n[hi] - n[lo]
  IN /\ Len(p) = Len(n)
     /\ (span > 0) => dir * (p[hi] - p[lo]) > 0
     /\ \A i \in I : IF span = 0 THEN p[i] = p[lo]
                     ELSE Near((p[i] - p[lo]) * span, (p[hi] - p[lo]) * (n[i] - n[lo]), 2 * span)
Xs(line) == [i \in 1..Len(line.points) |-> line.points[i][1]]
Ys(line) == [i \in 1..Len(line.points) |-> line.points[i][2]]
InPicture(c, p) == p[1] >= 0 /\ p[1] <= c.size[1] /\ p[2] >= 0 /\ p[2] <= c.size[2]

LabelsOf(c, name) == {i \in 1..Len(c.labels) : c.labels[i].text = name}
LinesOf(c, colour) == {i \in 1..Len(c.lines) : c.lines[i].colour = colour}
TheLabel(c, name) == c.labels[CHOOSE i \in LabelsOf(c, name) : TRUE]
TheLine(c, name)  == c.lines[CHOOSE i \in LinesOf(c, TheLabel(c, name).colour) : TRUE]
Concatenated(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)

\* "" or what is wrong with the chart c of the table t
ChartVerdict(c, t) ==
  LET cols == t.cols
      K == 1..Len(cols)
  IN IF c.titles # <<t.title>> THEN "title"
     ELSE IF Len(c.lines) # Len(cols) \/ Len(c.labels) # Len(cols) \/ \E k \in K : Cardinality(LabelsOf(c, cols[k])) # 1
          THEN "one-line-per-codec"
     ELSE IF \E k \in K : Cardinality(LinesOf(c, TheLabel(c, cols[k]).colour)) # 1 THEN "colours"
     ELSE LET ln == [k \in K |-> TheLine(c, cols[k])] IN
          IF \E k \in K : Len(ln[k].points) # NumRows(t) THEN "one-point-per-message"
          ELSE IF \E k \in K : \E i \in 1..NumRows(t) : ~InPicture(c, ln[k].points[i]) THEN "outside-the-picture"
          ELSE IF ~Linear(Concatenated([k \in K |-> [i \in 1..NumRows(t) |-> t.rows[i].num]]),
                          Concatenated([k \in K |-> Xs(ln[k])]), 1) THEN "message-position"
          ELSE IF ~Linear(Concatenated([k \in K |-> [i \in 1..NumRows(t) |-> t.rows[i].sizes[k]]]),
                          Concatenated([k \in K |-> Ys(ln[k])]), -1) THEN "size-position"
          ELSE IF \E k \in K : LET lb == TheLabel(c, cols[k])  last == ln[k].points[NumRows(t)]
                               IN lb.at[2] # last[2] \/ lb.at[1] < last[1] THEN "label-position"
          ELSE LET b == Begins(t) IN
               IF [i \in 1..Len(c.notes) |-> c.notes[i].text] # [i \in 1..Len(b) |-> t.rows[b[i]].name] THEN "stream-notes"
               ELSE IF \E i \in 1..Len(b) : ~Near(c.notes[i].at[1], ln[1].points[b[i]][1], 1) THEN "note-position"
               ELSE ""
=============================================================================
