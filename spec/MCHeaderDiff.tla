----------------------------- MODULE MCHeaderDiff -----------------------------
EXTENDS HeaderDiffModel
q(n) == [k \in 1..n |-> 113]
A == <<97>>
\* values sharing prefixes ("xx/y", "xx/z"), a long one (novelty), an empty one,
\* a name not registered, and :path
U == << <<A, <<120, 120, 47, 121>>>>, <<A, <<120, 120, 47, 122>>>>, <<A, <<120, 120>> \o q(20)>>,
        <<<<98>>, <<>>>>, <<<<98>>, <<112, 112, 112>>>>, <<PathName, <<47, 97>>>> >>
N0 == << A, PathName >>
L0 == {47}
=============================================================================
