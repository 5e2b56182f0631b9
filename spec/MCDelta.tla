-------------------------------- MODULE MCDelta -------------------------------
EXTENDS DeltaModel
S == << <<<<104>>, <<>>>>, <<<<112>>, <<47>>>>, <<<<104>>, <<120>>>> >>
U == << <<<<104>>, <<120>>>>, <<<<104>>, <<121, 121>>>>, <<<<97>>, <<49>>>>, <<<<97>>, <<49, 50, 51>>>>,
        <<<<112>>, <<47, 97>>>>, <<<<98, 98>>, <<>>>> >>
Eph == {<<112>>}
CONSTANTS maxb, maxe, maxn
C0 == [maxb |-> maxb, maxe |-> maxe, maxn |-> maxn]
=============================================================================
