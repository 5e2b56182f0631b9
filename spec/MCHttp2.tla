------------------------------- MODULE MCHttp2 -------------------------------
EXTENDS Http2Model
\* ":path /" is in the initial table and is never indexed as a literal
U == << <<PathName, <<47>>>>, <<PathName, <<47, 97>>>>,
        <<<<97>>, <<>>>>, <<<<97>>, <<120>>>>, <<<<98>>, [k \in 1..40 |-> 121]>> >>
S1 == << <<PathName, <<47>>>>, <<<<97>>, <<>>>> >>
=============================================================================
