-------------------------------- MODULE MCHpack --------------------------------
EXTENDS HpackModel
Y(n) == [k \in 1..n |-> 121]
\* a field of the static table, small ones, and ones that fill a real table (4096)
U == << <<HpackStaticTable[2][1], HpackStaticTable[2][2]>>, <<HpackStaticTable[4][1], <<47, 97>>>>,
        <<<<97>>, <<>>>>, <<<<97>>, <<120>>>>, <<<<98>>, Y(1400)>>, <<<<99>>, Y(2600)>>, <<<<98>>, Y(4064)>>, <<<<97>>, Y(4063)>> >>
=============================================================================
