------------------------------ MODULE Cleaner ------------------------------
(* The cleaner as a state machine over documents, and recorded runs of the real
   one checked against it.

   State: the document being held and the picture it paints.  Actions: Load a
   document, Clean it under some options (one run of the tool), Refuse it, or
   Crash.  The picture is a constant of motion of every Clean; Refuse is only
   enabled for documents that must be refused; Crash is never enabled.

   A trace file holds independent behaviours (one per record).  Every event is
   judged; what breaks is printed, so that one run reports all of it. *)
EXTENDS Contracts, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES rec, pos, pic
vars == <<rec, pos, pic>>

R == Trace[rec]
Report(clause, info) == PrintT("BAD " \o ToJson([rec |-> R.id, pos |-> pos + 1, clause |-> clause, info |-> info]))
\* a clause that fails is reported; the behaviour goes on so that the rest is checked
Must(ok, clause, info) == IF ok THEN TRUE ELSE Report(clause, info)

-----------------------------------------------------------------------------
Load ==
  /\ pos = 0 /\ pos' = 1
  /\ pic' = IF R.pic THEN Render(R.d[1]) ELSE <<>>
  /\ UNCHANGED rec

Ev == R.e[pos]
IsEvent(a) == pos >= 1 /\ pos <= Len(R.e) /\ Ev.a = a /\ pos' = pos + 1 /\ UNCHANGED <<rec, pic>>

Asked(c) == \E i \in 1..Len(Ev.q) : Ev.q[i] = c

Clean ==
  /\ IsEvent("Clean")
  /\ LET I == R.d[Ev.f]  O == R.d[Ev.t] IN
     /\ Asked("picture") =>
          LET p == Render(O) IN Must(ItemsEq(pic, p, R.tol), "picture", DiffItems(pic, p, R.tol))
     /\ Asked("refs") => Must(Dangling(O) = {}, "refs", Dangling(O))
     /\ Asked("ids") => Must(UniqueIds(O), "ids", <<>>)
     /\ (Asked("keptids") /\ On(Ev, "remove-unreferenced-ids")) => Must(Ids(O) \subseteq RefIds(O), "keptids", Ids(O) \ RefIds(O))
     /\ (Asked("trimids") /\ On(Ev, "trim-ids")) => Must(\A s \in Ids(O) : ValidTrimmed(s), "trimids", Ids(O))
     /\ Asked("complete") => Must(Broken(Completeness(Ev, I, O)) = {}, "complete", Broken(Completeness(Ev, I, O)))
     /\ Asked("accept") => Must(~MustRefuse(I), "refusal-missing", <<>>)
     /\ Asked("ns") => Must(O.misc.ns_ok, "namespace", <<>>)

Refuse ==
  /\ IsEvent("Refuse")
  /\ Must(Offending(R.d[Ev.f]) \/ Unresolvable(R.d[Ev.f]), "refused", Ev.st)

\* a document the tool wrote itself may not be refused
RefuseOwn ==
  /\ IsEvent("RefuseOwn")
  /\ Must(FALSE, "refuse-own", Ev.st)

\* the same run with another notation of the output
Rewrite ==
  /\ IsEvent("Rewrite")
  /\ LET d == DiffDoc(R.d[Ev.f], R.d[Ev.t]) IN Must(d = <<>>, "notation", d)

\* Texts of successive passes, as numbers (equal texts have equal numbers): the
\* passes come to a text that does not change any more, and multipass mode stops
\* on one of them, not before a pass that makes the text no smaller (n: the sizes).
Settle ==
  /\ IsEvent("Settle")
  /\ Must(\E k \in 1..(Len(Ev.h) - 1) : Ev.h[k] = Ev.h[k + 1], "settle", Ev.h)
Multipass ==
  /\ IsEvent("Multipass")
  /\ Must(\E k \in 2..Len(Ev.h) :
            /\ Ev.h[k] = Ev.r
            /\ \/ k > 2 /\ Ev.n[k] >= Ev.n[k - 1]
               \/ k < Len(Ev.h) /\ Ev.h[k + 1] = Ev.h[k]
               \/ k = Len(Ev.h), "multipass", <<Ev.r, Ev.h, Ev.n>>)

Crash ==
  /\ IsEvent("Crash")
  /\ Must(FALSE, "crash", Ev.st)

Init == rec \in 1..Len(Trace) /\ pos = 0 /\ pic = <<>>
Next == Load \/ Clean \/ Refuse \/ RefuseOwn \/ Rewrite \/ Settle \/ Multipass \/ Crash
Spec == Init /\ [][Next]_vars
\* every record consumed completely: the driver compares the number of states
=============================================================================
