---------------------------- MODULE TraceDefaults ----------------------------
(* What functions did with settings left out (left), with their defaults
   given (given), and with other values for a setting (other, third).               *)
EXTENDS DefaultsCore, Json, IOUtils, SequencesExt
VARIABLES ti, l, st, cnt
Traces == ndJsonDeserialize(IOEnv.TRACES)

CClauses(c, t, e) ==
    << Cl("U03", "Answers", e.answers),
       Cl("U03", "LeftOutIsDefault", e.left = e.given) >>
    \o When(e.other # "" /\ ToSet(e.omit) \cap Quiet(e.fn) = {},
       << Cl("U03", "SettingHonoured", e.other # e.given /\ e.third # e.given) >>)
CInit(c) == 0
CPost(c, t, e) == t + 1
INSTANCE TraceRunner WITH InitState <- CInit, Post <- CPost, Clauses <- CClauses
Spec == TInit /\ [][TNext]_<<ti, l, st, cnt>>
=============================================================================
