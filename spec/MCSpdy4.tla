-------------------------------- MODULE MCSpdy4 -------------------------------
EXTENDS Spdy4Model
S == << <<<<104>>, <<>>>>, <<<<112>>, <<47>>>> >>
U == << <<<<104>>, <<>>>>, <<<<104>>, <<120>>>>, <<<<97>>, <<49>>>>, <<<<97>>, <<49, 50, 51>>>>,
        <<<<112>>, <<47, 97>>>>, <<<<98, 98>>, <<>>>> >>
CONSTANTS maxb, maxv
L0 == [bytes |-> maxb, vals |-> maxv]
=============================================================================
