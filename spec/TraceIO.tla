------------------------------ MODULE TraceIO ------------------------------
(* Helpers shared by all the trace models: reading the recorded traces and  *)
(* printing verdicts and behaviours (lines starting with "@@").             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

(* s: sequence of <<clause name, condition>>; names of the failing clauses *)
Fails(s) == {s[i][1] : i \in {j \in DOMAIN s : ~s[j][2]}}

Say(x) == PrintT("@@" \o ToJson(x))

Has(e, f) == f \in DOMAIN e
Range(s) == {s[i] : i \in DOMAIN s}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN -x ELSE x
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
=============================================================================
