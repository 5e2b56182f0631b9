------------------------------- MODULE MCDelta2 -------------------------------
EXTENDS Delta2Model
S == << <<<<104>>, <<>>>>, <<<<112>>, <<47>>>> >>
\* a static key with new values, a new key with two values, the path
U == << <<<<104>>, <<120>>>>, <<<<104>>, <<121, 121>>>>, <<<<97>>, <<49>>>>, <<<<97>>, <<49, 50, 51>>>>,
        <<<<112>>, <<47>>>>, <<<<112>>, <<47, 97>>>> >>
Eph == {<<112>>}
CONSTANTS maxb, maxe, maxi, hg, imp, ref, end
C0 == [maxb |-> maxb, maxe |-> maxe, maxi |-> maxi, hg |-> hg, imp |-> imp, ref |-> ref, end |-> end]
=============================================================================
