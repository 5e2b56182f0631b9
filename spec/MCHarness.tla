------------------------------ MODULE MCHarness ------------------------------
EXTENDS HarnessModel
\* "a.x.com", "A.X.com", "b.x.com", "a.co.uk:81"
MHosts == { <<97,46,120,46,99,111,109>>, <<65,46,88,46,99,111,109>>,
            <<98,46,120,46,99,111,109>>, <<97,46,99,111,46,117,107,58,56,49>> }
MKinds == {"all_one", "host", "public_suffix"}
MOutcomes == {"same"}
=============================================================================
