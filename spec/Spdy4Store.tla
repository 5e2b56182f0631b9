------------------------------ MODULE Spdy4Store ------------------------------
(* The state of the C++ SPDY4 encoder and the effect of a frame on it.          *)
(*                                                                              *)
(*  store = [vals  : entry number -> <<name, value>>                            *)
(*           fixed : numbers of the default entries, which are never evicted    *)
(*           keys  : name -> key number                                         *)
(*           lru   : Seq(number), least recently used first, no fixed ones      *)
(*           pin   : how many entries at the front of lru may be evicted: those *)
(*                   the frame in progress does not use                         *)
(*           freev, nextv, freek, nextk : numbers given back / handed out last  *)
(*           size  : bytes of all names and values                              *)
(*           groups: group -> set of entry numbers (an entry may be in several)]*)
(*  lim   = [bytes, vals : limits]                                              *)
EXTENDS Util
CONSTANT Static          \* sequence of <<name, value>>

XorSet(A, B) == (A \ B) \cup (B \ A)
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
Blank == [vals |-> [n \in {} |-> <<>>], fixed |-> {}, keys |-> (<<>> :> 0), lru |-> <<>>, pin |-> 0,
          freev |-> {}, nextv |-> 0, freek |-> {}, nextk |-> 0, size |-> 0, groups |-> [g \in {} |-> {}]]

\* ---- names and entries ----------------------------------------------------
NewNo(free, next) == IF free # {} THEN Lowest(free) ELSE next + 1
AddKey(st, k) ==
  LET n == NewNo(st.freek, st.nextk) IN
  [st EXCEPT !.keys = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN n ELSE @[x]],
             !.freek = @ \ {n}, !.nextk = Max2(@, n), !.size = @ + Len(k)]
AddVal(st, k, v) ==      \* the caller puts the entry into lru or fixed
  LET n == NewNo(st.freev, st.nextv) IN
  [st EXCEPT !.vals = [x \in DOMAIN @ \cup {n} |-> IF x = n THEN <<k, v>> ELSE @[x]],
             !.freev = @ \ {n}, !.nextv = Max2(@, n), !.size = @ + Len(v)]
Default(st, h) ==
  LET s1 == IF h[1] \in DOMAIN st.keys THEN st ELSE AddKey(st, h[1])
      s2 == AddVal(s1, h[1], h[2])
  IN [s2 EXCEPT !.fixed = DOMAIN s2.vals]
NewStore == FoldLeft(Default, Blank, Static)      \* TLC evaluates this constant once
AddLine(st, g, h) ==
  CHOOSE r \in { [s EXCEPT !.lru = Append(@, n), !.groups[g] = @ \cup {n}] :
                   s \in {AddVal(st, h[1], h[2])}, n \in {NewNo(st.freev, st.nextv)} } : TRUE

IsStored(st, n) == n \in DOMAIN st.vals
Holds(st, h) == \E n \in DOMAIN st.vals : st.vals[n] = h
KeyOf(st, kn) == CHOOSE k \in DOMAIN st.keys : st.keys[k] = kn

\* ---- eviction ---------------------------------------------------------------
Fits(st, space, more, lim) ==
  st.pin = 0 \/ (Cardinality(DOMAIN st.vals) + more <= lim.vals /\ st.size + space <= lim.bytes)
EvictOne(st, hold) ==    \* hold: the names that stay although nothing uses them
  LET n == Head(st.lru)
      k == st.vals[n][1]
      s1 == [st EXCEPT !.vals = [x \in DOMAIN @ \ {n} |-> @[x]], !.lru = Tail(@), !.pin = @ - 1,
                       !.freev = @ \cup {n}, !.size = @ - Len(st.vals[n][2]),
                       !.groups = [g \in DOMAIN @ |-> @[g] \ {n}]]
  IN IF k \in hold \/ \E m \in DOMAIN s1.vals : s1.vals[m][1] = k THEN s1
     ELSE [s1 EXCEPT !.keys = [x \in DOMAIN @ \ {k} |-> @[x]], !.freek = @ \cup {st.keys[k]}, !.size = @ - Len(k)]

\* ---- what a header set asks for -------------------------------------------
\* cookies are taken apart at ';'; blanks after it are skipped, and an empty end
\* is no crumb
Blanks == {32}
RECURSIVE NoLead(_)
NoLead(s) == IF s # <<>> /\ s[1] = 32 THEN NoLead(Tail(s)) ELSE s
Crumbs(v) ==
  LET p == SplitAt(v, 59)
      q == [i \in 1..Len(p) |-> IF i = 1 THEN p[1] ELSE NoLead(p[i])]
  IN IF Len(q) > 1 /\ q[Len(q)] = <<>> THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Lines(hdrs) ==
  FlattenSeq([i \in 1..Len(hdrs) |->
    IF hdrs[i][1] = Cookie THEN LET c == Crumbs(hdrs[i][2]) IN [j \in 1..Len(c) |-> <<Cookie, c[j]>>]
    ELSE <<<<hdrs[i][1], hdrs[i][2]>>>>])

\* ---- a frame ------------------------------------------------------------------
Enter(st, g) == [st EXCEPT !.groups = [x \in DOMAIN @ \cup {g} |-> IF x \in DOMAIN @ THEN @[x] ELSE {}]]
\* the entries of the group come first, then those that join it, in the order of the lines
Toggled(st, g, lines, tog) ==
  LET before == st.groups[g]
      after == XorSet(before, tog)
      no(h) == {n \in after : st.vals[n] = h}
      used == FlattenSeq([i \in 1..Len(lines) |-> SetToSortSeq(no(lines[i]) \ st.fixed, <)])
      front == SelectSeq(st.lru, LAMBDA n : ~\E i \in 1..Len(used) : used[i] = n)
  IN [st EXCEPT !.groups[g] = after, !.pin = Len(front),
                !.lru = front \o SelectSeq(used, LAMBDA n : n \in before) \o SelectSeq(used, LAMBDA n : n \notin before)]
Means(st, g) == {st.vals[n] : n \in st.groups[g]}

\* ---- invariants ---------------------------------------------------------------
StoreOk(st) ==
  /\ st.size = SumOver(SetToSeq(DOMAIN st.keys), Len) + SumOver(SetToSeq(DOMAIN st.vals), LAMBDA n : Len(st.vals[n][2]))
  /\ ToSet(st.lru) = DOMAIN st.vals \ st.fixed
  /\ Cardinality(ToSet(st.lru)) = Len(st.lru)
  /\ Cardinality({st.keys[k] : k \in DOMAIN st.keys}) = Cardinality(DOMAIN st.keys)
  /\ \A n \in DOMAIN st.vals : st.vals[n][1] \in DOMAIN st.keys
  /\ \A g \in DOMAIN st.groups : st.groups[g] \subseteq DOMAIN st.vals
  /\ st.freev = 1..st.nextv \ DOMAIN st.vals
KeysUsed(st) == \A k \in DOMAIN st.keys \ {<<>>} : \E n \in DOMAIN st.vals : st.vals[n][1] = k
\* when a frame is done, only what it used itself can exceed the limits
Bounded(st, lim) == Fits(st, 0, 0, lim)
=============================================================================
