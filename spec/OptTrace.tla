------------------------------ MODULE OptTrace ------------------------------
(* Recorded runs of the real option parser checked against Options.tla.

   A behaviour is a series of argument lists given to one process.  Every list is
   an event: Accepted with all the settings that resulted, or Rejected.  The
   settings in force are the state; they depend on nothing but the last list. *)
EXTENDS Options, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, pos, settings
vars == <<rec, pos, settings>>
R == Trace[rec]
Ev == R.e[pos]
Report(clause, info) == PrintT("BAD " \o ToJson([rec |-> R.id, pos |-> pos + 1, clause |-> clause, info |-> info]))
Must(ok, clause, info) == IF ok THEN TRUE ELSE Report(clause, info)

Expected == Resolve(Ev.g, Ev.nd) @@ ("io" :> Io(Ev.c, Ev.p))
Valid == ValidValues(Ev.g) /\ ValidFiles(Ev.c, Ev.p)

Load == pos = 0 /\ pos' = 1 /\ UNCHANGED <<rec, settings>>
IsEvent(a) == pos >= 1 /\ pos <= Len(R.e) /\ Ev.a = a /\ pos' = pos + 1 /\ UNCHANGED rec

Accepted ==
  /\ IsEvent("Accepted")
  /\ Must(Valid, "invalid-value-accepted", Ev.g)
  /\ Must(~MustReject(Ev.g, Ev.nd), "invalid-combination-accepted", Ev.g)
  /\ settings' = Ev.v
  /\ Valid => LET X == Expected
                  bad == {k \in DOMAIN X \cup DOMAIN Ev.v : ~(Has0(Ev.v, k) /\ Has0(X, k) /\ X[k] = Ev.v[k])}
              IN Must(bad = {}, "settings", [k \in bad |-> [expected |-> IF Has0(X, k) THEN X[k] ELSE "-",
                                                             found |-> IF Has0(Ev.v, k) THEN Ev.v[k] ELSE "-"]])
\* by the argument parser (a value or a file name), or by the combination checks
RejectedValue == IsEvent("RejectedValue") /\ Must(~Valid, "valid-value-rejected", Ev.st) /\ UNCHANGED settings
RejectedCombination ==
  IsEvent("RejectedCombination") /\ UNCHANGED settings
  /\ Must(Valid /\ MayReject(Ev.g, Ev.nd), "valid-combination-rejected", Ev.st)
Crash == IsEvent("Crash") /\ UNCHANGED settings /\ Must(FALSE, "crash", Ev.st)

Init == rec \in 1..Len(Trace) /\ pos = 0 /\ settings = <<>>
Next == Load \/ Accepted \/ RejectedValue \/ RejectedCombination \/ Crash
Spec == Init /\ [][Next]_vars
=============================================================================
