---------------------------- MODULE DeflateTrace ----------------------------
(* Conformance of the codecs built on zlib (http1_gzip, http1_huffman, spdy3):  *)
(* every recorded output is inflated bit by bit with the window that the        *)
(* dictionary and the earlier messages left, and the text is compared with the  *)
(* form of the headers that were put in.  The C++ SPDY/3 formatter ("control")  *)
(* puts the deflated name/value block into a control frame.                     *)
EXTENDS Inflate, Http1, SpdyDict, Json, IOUtils
CONSTANT Watch
VARIABLES l, ph, pos, win, cur, todo, lens, lit, dist, prev, stat, err, cov
vars == <<l, ph, pos, win, cur, todo, lens, lit, dist, prev, stat, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
F == Ev.out
kind == stat.kind            \* "gzip" | "huffman" | "spdy3" | "control"
BlockLen == FoldLeft(LAMBDA a, h : a + 8 + Len(Utf8(h[1])) + Len(Utf8(h[2])), 0, Ev.hdrs)
Raw == IF kind = "spdy3" THEN IF BlockLen < 12 THEN BlockLen ELSE 12 ELSE IF kind = "control" THEN 12 ELSE 0
Fdict == IF kind = "control" THEN 1 ELSE 0      \* the zlib header names the dictionary
\* version 3, type 8 (HEADERS), no flags, the length of what follows it, stream 1
ControlHeader == <<128, 3, 0, 8, 0, ((Len(F) - 8) \div 65536) % 256, ((Len(F) - 8) \div 256) % 256, (Len(F) - 8) % 256, 0, 0, 0, 1>>
NoCode == [cnt |-> [i \in 1..15 |-> 0], sym |-> <<>>]

Init == /\ l = 1 /\ ph = "idle" /\ pos = 0 /\ win = <<>> /\ cur = <<>> /\ todo = <<>> /\ lens = <<>>
        /\ lit = NoCode /\ dist = NoCode /\ prev = <<>> /\ err = <<>>
        /\ stat = [kind |-> "", fresh |-> FALSE, lits |-> 0, copies |-> 0, final |-> FALSE]
        /\ cov = [new |-> 0, msg |-> 0, stored |-> 0, fixed |-> 0, dynamic |-> 0, literal |-> 0, copy |-> 0,
                  fromwindow |-> 0, repeat |-> 0, dictionary |-> 0, header |-> 0, skip |-> 0]
Bump(fs) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + 1 ELSE cov[k]]
Fail(clause) ==
  IF clause \in Watch
  THEN /\ err' = <<clause, l, pos>> /\ ph' = "dead"
       /\ UNCHANGED <<l, pos, win, cur, todo, lens, lit, dist, prev, stat, cov>>
  ELSE /\ ph' = "skip" /\ l' = l + 1 /\ Bump({"skip"})
       /\ UNCHANGED <<pos, win, cur, todo, lens, lit, dist, prev, stat, err>>

New == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new"
       /\ IF Ev.exc # "" THEN Fail("constructor-" \o Ev.exc)
          ELSE /\ win' = (IF Ev.primed THEN SpdyDict ELSE <<>>) /\ prev' = <<>> /\ l' = l + 1 /\ ph' = "idle" /\ Bump({"new"})
               /\ stat' = [kind |-> Ev.kind, fresh |-> ~Ev.primed \/ Ev.kind = "control", lits |-> 0, copies |-> 0, final |-> FALSE]
               /\ UNCHANGED <<pos, cur, todo, lens, lit, dist, err>>
Skip == /\ ph = "skip" /\ l <= N /\ Ev.ev # "new" /\ l' = l + 1
        /\ UNCHANGED <<ph, pos, win, cur, todo, lens, lit, dist, prev, stat, err, cov>>

\* a stream that was not started by a dictionary begins with the two bytes of zlib
Begin ==
  /\ ph = "idle" /\ l <= N /\ Ev.ev = "msg"
  /\ IF Ev.exc # "" THEN Fail("compress-" \o Ev.exc)
     ELSE IF Ev.mut THEN Fail("input-changed")
     ELSE IF kind = "control" /\ (Len(F) < 12 \/ SubSeq(F, 1, Min2(12, Len(F))) # ControlHeader) THEN Fail("frame-header")
     ELSE IF stat.fresh /\ (Len(F) < Raw + 2 \/ (F[Raw + 1] * 256 + F[Raw + 2]) % 31 # 0 \/ F[Raw + 1] % 16 # 8
                            \/ F[Raw + 1] \div 16 > 7 \/ (F[Raw + 2] \div 32) % 2 # Fdict) THEN Fail("zlib-header")
     ELSE IF stat.fresh /\ Fdict = 1 /\ (Len(F) < Raw + 6 \/ SubSeq(F, Raw + 3, Raw + 6) # SpdyDictId) THEN Fail("dictionary-id")
     ELSE /\ ph' = "block" /\ pos' = 8 * (Raw + IF stat.fresh THEN 2 + 4 * Fdict ELSE 0) /\ cur' = <<>>
          /\ stat' = [stat EXCEPT !.fresh = FALSE, !.lits = 0, !.copies = 0, !.final = FALSE]
          /\ Bump(IF stat.fresh THEN {"header"} ELSE {})
          /\ UNCHANGED <<l, win, todo, lens, lit, dist, prev, err>>

AtEnd == pos = 8 * Len(F)
Keep == UNCHANGED <<l, win, prev, err>>
Block ==
  /\ ph = "block" /\ ~AtEnd
  /\ IF ~HasBits(F, pos, 3) THEN Fail("truncated")
     ELSE IF BitAt(F, pos) = 1 THEN Fail("stream-ends")
     ELSE LET t == BitsAt(F, pos + 1, 2) IN
       CASE t = 0 ->
              LET p == ((pos + 10) \div 8)      \* bytes before the length field
              IN IF p + 4 > Len(F) THEN Fail("truncated")
                 ELSE LET n == F[p + 1] + 256 * F[p + 2] IN
                   IF F[p + 3] # 255 - F[p + 1] \/ F[p + 4] # 255 - F[p + 2] THEN Fail("stored-length")
                   ELSE IF p + 4 + n > Len(F) THEN Fail("truncated")
                   ELSE /\ cur' = cur \o SubSeq(F, p + 5, p + 4 + n) /\ pos' = 8 * (p + 4 + n)
                        /\ stat' = [stat EXCEPT !.lits = @ + n] /\ Bump({"stored"})
                        /\ Keep /\ UNCHANGED <<ph, todo, lens, lit, dist>>
         [] t = 1 -> /\ lit' = FixedLit /\ dist' = FixedDist /\ ph' = "symbols" /\ pos' = pos + 3 /\ Bump({"fixed"})
                     /\ Keep /\ UNCHANGED <<cur, todo, lens, stat>>
         [] t = 2 -> IF ~HasBits(F, pos, 17) THEN Fail("truncated")
                     ELSE LET nl == BitsAt(F, pos + 3, 5) + 257
                              nd == BitsAt(F, pos + 8, 5) + 1
                              nc == BitsAt(F, pos + 13, 4) + 4
                              cl == [i \in 1..19 |-> LET K == {k \in 1..nc : LensOrder[k] = i - 1} IN
                                        IF K = {} THEN 0 ELSE BitsAt(F, pos + 17 + 3 * ((CHOOSE k \in K : TRUE) - 1), 3)]
                          IN IF nl > 286 \/ ~HasBits(F, pos, 17 + 3 * nc) THEN Fail("truncated")
                             ELSE IF ~Legal(Code(cl)) THEN Fail("illegal-code")
                             ELSE /\ todo' = <<nl, nd>> /\ lens' = <<>> /\ lit' = Code(cl)
                                  /\ pos' = pos + 17 + 3 * nc /\ ph' = "lengths" /\ Bump({"dynamic"})
                                  /\ Keep /\ UNCHANGED <<cur, dist, stat>>
         [] t = 3 -> Fail("block-type")
Lengths ==
  /\ ph = "lengths" /\ Len(lens) < todo[1] + todo[2]
  /\ LET s == Symbol(F, pos, lit)
         p == pos + s.n
         add(x, extra) == IF Len(lens) + Len(x) > todo[1] + todo[2] THEN Fail("too-many-lengths")
                          ELSE /\ lens' = lens \o x /\ pos' = p + extra
                               /\ Keep /\ UNCHANGED <<ph, cur, todo, lit, dist, stat, cov>>
     IN IF s.n = 0 \/ ~HasBits(F, p, 7) THEN Fail("truncated")
        ELSE CASE s.sym < 16 -> add(<<s.sym>>, 0)
               [] s.sym = 16 -> IF lens = <<>> THEN Fail("no-length-to-repeat")
                                ELSE add([i \in 1..(3 + BitsAt(F, p, 2)) |-> lens[Len(lens)]], 2)
               [] s.sym = 17 -> add([i \in 1..(3 + BitsAt(F, p, 3)) |-> 0], 3)
               [] s.sym = 18 -> add([i \in 1..(11 + BitsAt(F, p, 7)) |-> 0], 7)
Codes ==
  /\ ph = "lengths" /\ Len(lens) = todo[1] + todo[2]
  /\ LET a == Code(SubSeq(lens, 1, todo[1]))
         b == Code(SubSeq(lens, todo[1] + 1, todo[1] + todo[2]))
     IN IF ~Legal(a) \/ ~Legal(b) \/ lens[257] = 0 THEN Fail("illegal-code")
        ELSE /\ lit' = a /\ dist' = b /\ ph' = "symbols" /\ lens' = <<>>
             /\ Keep /\ UNCHANGED <<pos, cur, todo, stat, cov>>
Symbols ==
  /\ ph = "symbols"
  /\ LET s == Symbol(F, pos, lit) IN
     IF s.n = 0 THEN Fail("truncated")
     ELSE IF s.sym < 256 THEN
          /\ cur' = Append(cur, s.sym) /\ pos' = pos + s.n /\ stat' = [stat EXCEPT !.lits = @ + 1]
          /\ Bump({"literal"}) /\ Keep /\ UNCHANGED <<ph, todo, lens, lit, dist>>
     ELSE IF s.sym = 256 THEN
          /\ ph' = "block" /\ pos' = pos + s.n /\ Keep /\ UNCHANGED <<cur, todo, lens, lit, dist, stat, cov>>
     ELSE LET c == Copy(F, pos, s, dist) IN
          IF ~c.ok THEN Fail("truncated")
          ELSE IF c.dist > 32768 \/ c.dist > Len(win) + Len(cur) THEN Fail("refers-beyond-the-stream")
          ELSE /\ cur' = cur \o Copied(win, cur, c.len, c.dist) /\ pos' = c.next
               /\ stat' = [stat EXCEPT !.copies = @ + 1]
               /\ Bump({"copy"} \cup IF c.dist > Len(cur) THEN {"fromwindow"} ELSE {})
               /\ Keep /\ UNCHANGED <<ph, todo, lens, lit, dist>>

\* ---- the text of a message ---------------------------------------------
NoBlock == <<<<>>>>
RECURSIVE NvPairs(_, _)          \* name/value pairs, each with a 32-bit length; NoBlock if it is none
NvPairs(t, acc) ==
  IF t = <<>> THEN acc
  ELSE LET len(p) == IF Len(t) < p + 3 THEN -1 ELSE IF t[p] > 0 THEN -1 ELSE (t[p + 1] * 65536) + t[p + 2] * 256 + t[p + 3]
           n == len(1)
           m == IF n < 0 THEN -1 ELSE len(5 + n)
       IN IF m < 0 \/ Len(t) < 8 + n + m THEN NoBlock
          ELSE NvPairs(SubSeq(t, 9 + n + m, Len(t)), Append(acc, <<SubSeq(t, 5, 4 + n), SubSeq(t, 9 + n, 8 + n + m)>>))
Whole == SubSeq(F, 1, Raw) \o cur
Hdrs == Utf8Headers(Ev.hdrs)
FormVerdict ==
  IF kind = "spdy3"
  THEN LET nv == NvPairs(Whole, <<>>) IN
       IF nv = NoBlock THEN "no-name-value-block"
       ELSE IF Bag(nv) # Bag(Hdrs) THEN "block-differs" ELSE ""
  ELSE IF kind = "control"             \* the block says how many pairs, and keeps their order
  THEN LET nv == IF Len(cur) < 4 THEN NoBlock ELSE NvPairs(SubSeq(cur, 5, Len(cur)), <<>>) IN
       IF nv = NoBlock THEN "no-name-value-block"
       ELSE IF nv # Ev.hdrs \/ SubSeq(cur, 1, 4) # <<0, 0, Len(nv) \div 256, Len(nv) % 256>> THEN "block-differs" ELSE ""
  ELSE TextVerdict(cur, Hdrs, Default1, ToSet(Ev.multi))
\* what the dictionary or the message before already said is not said again
Verdict ==
  LET v == FormVerdict IN
  IF v # "" THEN v
  ELSE IF kind = "huffman" /\ stat.copies > 0 THEN "back-reference"
  ELSE IF kind # "huffman" /\ Ev.hdrs = prev /\ stat.lits > 8 + (Len(cur) \div 20) THEN "repeat-not-referenced"
  ELSE IF kind # "huffman" /\ Ev.known > 0 /\ stat.lits > Len(cur) - Ev.known + 8 THEN "dictionary-not-used"
  ELSE ""
Finish ==
  /\ ph = "block" /\ AtEnd
  /\ IF Verdict # "" THEN Fail(Verdict)
     ELSE /\ l' = l + 1 /\ ph' = "idle" /\ prev' = Ev.hdrs
          /\ win' = LET w == win \o cur IN SubSeq(w, IF Len(w) > 32768 THEN Len(w) - 32767 ELSE 1, Len(w))
          /\ Bump({"msg"} \cup (IF Ev.hdrs = prev THEN {"repeat"} ELSE {})
                  \cup IF Ev.known > 0 /\ kind # "huffman" THEN {"dictionary"} ELSE {})
          /\ UNCHANGED <<pos, cur, todo, lens, lit, dist, stat, err>>

Next == New \/ Skip \/ Begin \/ Block \/ Lengths \/ Codes \/ Symbols \/ Finish
Spec == Init /\ [][Next]_vars
View == <<l, ph, pos, Len(lens), Len(cur), err>>
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]
Done == (l > N /\ ph \in {"idle", "skip"}) => PrintT("DONE " \o ToJson(cov))
=============================================================================
