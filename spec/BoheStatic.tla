------------------------------ MODULE BoheStatic ------------------------------
(* The registered names of the bohe frames, number 1 first.                     *)
EXTENDS Naturals, Sequences
Registered == <<
  <<58,112,97,116,104>>,
  <<97,99,99,101,112,116,45,108,97,110,103,117,97,103,101>>,
  <<97,99,99,101,112,116,45,101,110,99,111,100,105,110,103>>,
  <<97,99,99,101,112,116>>,
  <<117,115,101,114,45,97,103,101,110,116>>,
  <<58,115,99,104,101,109,101>>,
  <<99,111,110,110,101,99,116,105,111,110>>,
  <<58,109,101,116,104,111,100>>,
  <<58,104,111,115,116>>,
  <<58,118,101,114,115,105,111,110>>,
  <<114,101,102,101,114,101,114>>,
  <<99,111,111,107,105,101>>,
  <<120,45,114,101,113,117,101,115,116,101,100,45,119,105,116,104>>,
  <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>,
  <<112,114,97,103,109,97>>,
  <<99,97,99,104,101,45,99,111,110,116,114,111,108>>,
  <<99,111,110,116,101,110,116,45,116,121,112,101>>,
  <<58,115,116,97,116,117,115>>,
  <<107,101,101,112,45,97,108,105,118,101>>,
  <<115,101,114,118,101,114>>,
  <<108,111,99,97,116,105,111,110>>,
  <<100,97,116,101>>,
  <<58,115,116,97,116,117,115,45,116,101,120,116>>,
  <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>,
  <<115,101,116,45,99,111,111,107,105,101>>,
  <<101,120,112,105,114,101,115>>,
  <<118,97,114,121>>,
  <<112,51,112>>,
  <<99,111,110,116,101,110,116,45,101,110,99,111,100,105,110,103>>,
  <<120,45,97,109,122,45,105,100,45,50>>,
  <<120,45,97,109,122,45,105,100,45,49>>,
  <<120,45,97,109,122,110,45,114,101,113,117,101,115,116,105,100>>,
  <<120,45,112,97,100>>,
  <<110,110,99,111,101,99,116,105,111,110>>,
  <<97,99,99,101,112,116,45,114,97,110,103,101,115>>,
  <<108,97,115,116,45,109,111,100,105,102,105,101,100>>,
  <<101,116,97,103>>,
  <<120,45,102,114,97,109,101,45,111,112,116,105,111,110,115>>,
  <<120,45,115,97,112,45,112,103>>,
  <<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>,
  <<118,105,97>>,
  <<120,45,99,97,99,104,101>>,
  <<97,103,101>>,
  <<120,45,97,109,122,45,99,102,45,105,100>>,
  <<99,110,101,111,110,99,116,105,111,110>>,
  <<120,45,99,97,99,104,101,45,108,111,111,107,117,112>>,
  <<120,45,120,115,115,45,112,114,111,116,101,99,116,105,111,110>>,
  <<105,102,45,110,111,110,101,45,109,97,116,99,104>>,
  <<120,45,97,109,122,45,114,101,113,117,101,115,116,45,105,100>>,
  <<120,45,97,109,122,45,109,101,116,97,45,106,101,116,115,51,116,45,111,114,105,103,105,110,97,108,45,102,105,108,101,45,100,97,116,101,45,105,115,111,56,54,48,49>>,
  <<120,45,97,109,122,45,109,101,116,97,45,109,100,53,45,104,97,115,104>>,
  <<99,111,110,116,101,110,116,45,108,111,99,97,116,105,111,110>>,
  <<120,45,111,99,115,112,45,114,101,112,111,110,100,101,114,45,105,100>>,
  <<99,111,110,116,101,110,116,45,116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>,
  <<120,45,99,111,110,116,101,110,116,45,116,121,112,101,45,111,112,116,105,111,110,115>>,
  <<120,45,104,111,115,116>>,
  <<100,108,95,115>>>>
=============================================================================
