------------------------------ MODULE Process ------------------------------
(* A process that answers requests, and what may be observed of it.

   A request names a case: a text and an argument list.  An answer is a cleaned
   text or an error, by way of the library, of files or of the standard streams.
   State: what each case was answered so far (`memo`).  An answer is a function
   of the case alone: not of the process, of what it did before, or of the way
   the text went in and out.  Every request is answered: a process never dies
   (Died) or hangs (Hung) instead. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, pos, memo
vars == <<rec, pos, memo>>
R == Trace[rec]
Ev == R.e[pos]
Report(clause, info) == PrintT("BAD " \o ToJson([rec |-> R.id, pos |-> pos + 1, clause |-> clause, c |-> Ev.c, info |-> info]))
Must(ok, clause, info) == IF ok THEN TRUE ELSE Report(clause, info)
IsEvent(a) == pos >= 1 /\ pos <= Len(R.e) /\ Ev.a = a /\ pos' = pos + 1 /\ UNCHANGED rec

Outcomes == {"ok", "refused"}
None == [st |-> "none", h |-> 0]

Start == pos = 0 /\ pos' = 1 /\ memo' = [c \in 1..R.n |-> None] /\ UNCHANGED rec

\* case c is answered with outcome st; h is the number of the text (equal texts, equal numbers)
Answer ==
  /\ IsEvent("Answer")
  /\ Must(Ev.st \in Outcomes, "outcome", Ev.st)
  /\ LET m == memo[Ev.c]  now == [st |-> Ev.st, h |-> Ev.h] IN
     /\ Must(m = None \/ m = now, "same", [case |-> Ev.c, via |-> Ev.via, first |-> m, now |-> now])
     /\ memo' = [memo EXCEPT ![Ev.c] = IF m = None THEN now ELSE m]
Died == IsEvent("Died") /\ UNCHANGED memo /\ Must(FALSE, "died", Ev.st)
Hung == IsEvent("Hung") /\ UNCHANGED memo /\ Must(FALSE, "hung", Ev.st)

Init == rec \in 1..Len(Trace) /\ pos = 0 /\ memo = <<>>
Next == Start \/ Answer \/ Died \/ Hung
Spec == Init /\ [][Next]_vars
=============================================================================
