-------------------------------- MODULE Cli --------------------------------
(* The executable as a state machine over files and streams.

   A configuration c says how the tool is called (form), what its input is
   (kind), what the output file holds beforehand (old) and which flags are given.
   Files hold abstract contents: "input" (the bytes of the input), "old" (something
   else), "clean" (the cleaned text), "clean+nl" (the same and a newline), "none"
   (no such file), "dir".  Next is the decision procedure; the invariants are what
   a user relies on.  TLC explores every configuration; each terminal state is
   printed and replayed against the real executable (lib/cli.py). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* ---- how it is called
Forms == { "file",        \* in.svg out.svg
           "upper",       \* IN.SVG OUT.SVG
           "same",        \* in.svg in.svg
           "alias",       \* in.svg ./in.svg
           "link",        \* in.svg link.svg, a symbolic link to in.svg
           "stdout",      \* -c in.svg
           "stdoutlong",  \* in.svg --stdout
           "stdoutout",   \* -c in.svg out.svg
           "stdio",       \* -c -          (stdin to stdout)
           "tofile",      \* out.svg -     (stdin to out.svg)
           "nodir",       \* in.svg nodir/out.svg
           "outdir",      \* in.svg d.svg, a directory
           "badext",      \* in.txt out.svg
           "badoutext",   \* in.svg out.txt
           "noout",       \* in.svg
           "noargs",
           "badvalue",    \* --indent=9
           "badprec",     \* --coordinates-precision=13
           "badflag",     \* --trim-paths=maybe
           "unknown",     \* --no-such-option
           "badcombo1", "badcombo2", "badcombo3", "badcombo4" }
Rejected == {"badext", "badoutext", "noout", "noargs", "badvalue", "badprec", "badflag", "unknown",
             "badcombo1", "badcombo2", "badcombo3", "badcombo4"}
StdinForms == {"stdio", "tofile"}
StdoutForms == {"stdout", "stdoutlong", "stdoutout", "stdio"}
SameForms == {"same", "alias", "link"}

\* ---- what the input is
Kinds == {"absent", "dir", "nontext", "unparsable", "refused", "shrinks", "equal", "grows"}
Cleanable == {"shrinks", "equal", "grows"}

Configs ==
  { x \in [form : Forms, kind : Kinds, old : {"none", "old"}, copy : BOOLEAN, bigger : BOOLEAN, nl : BOOLEAN,
           quiet : BOOLEAN, multi : BOOLEAN] :
      /\ x.form \in StdinForms => x.kind \notin {"absent", "dir"}
      /\ x.form \in SameForms => x.old = "none" /\ x.kind \notin {"absent", "dir"}
      /\ x.form \in Rejected => x.kind \in {"shrinks", "grows", "unparsable"} /\ ~x.quiet /\ ~x.multi }

FromFile(c) == c.form \notin StdinForms
\* the file the result is written to ("" when it goes to the standard output)
Target(c) == IF c.form \in StdoutForms THEN "" ELSE IF c.form \in SameForms THEN "in" ELSE "out"
Writable(c) == c.form \notin {"nodir", "outdir"}

VARIABLES c, pc, fs, out, err
vars == <<c, pc, fs, out, err>>

InState(x) == IF x.form \in StdinForms THEN "none" ELSE IF x.kind = "absent" THEN "none" ELSE IF x.kind = "dir" THEN "dir" ELSE "input"
OutState(x) == CASE x.form = "outdir" -> "dir" [] x.form = "nodir" -> "none" [] OTHER -> x.old
Init ==
  /\ c \in Configs
  /\ pc = "args" /\ out = "" /\ err = FALSE
  /\ fs = [in |-> InState(c), out |-> OutState(c)]

Fail(next) == pc' = next /\ err' = TRUE /\ UNCHANGED <<c, fs, out>>
Go(next) == pc' = next /\ UNCHANGED <<c, fs, out, err>>

ParseArgs == pc = "args" /\ IF c.form \in Rejected THEN Fail("done") ELSE Go("exists")
CheckExists == pc = "exists" /\ IF FromFile(c) /\ c.kind = "absent" THEN Fail("done") ELSE Go("load")
Load == pc = "load" /\ IF c.kind \in {"dir", "nontext"} THEN Fail("onerr") ELSE Go("parse")
Parse == pc = "parse" /\ IF c.kind = "unparsable" THEN Fail("onerr") ELSE Go("clean")
Clean == pc = "clean" /\ IF c.kind = "refused" THEN Fail("onerr") ELSE Go("size")
Size == pc = "size" /\ IF c.kind = "grows" /\ ~c.bigger THEN Fail("onerr") ELSE Go("write")
\* an error after the input was found: copy it on request, when there are two files
OnErr ==
  /\ pc = "onerr" /\ pc' = "done" /\ UNCHANGED <<c, out, err>>
  /\ fs' = IF c.copy /\ FromFile(c) /\ Target(c) = "out" /\ Writable(c) /\ fs["in"] = "input"
           THEN [fs EXCEPT !.out = "input"] ELSE fs
Text == IF c.nl THEN "clean+nl" ELSE "clean"
WriteOut ==
  /\ pc = "write" /\ pc' = "done" /\ UNCHANGED c
  /\ IF Target(c) = "" THEN out' = Text /\ UNCHANGED <<fs, err>>
     ELSE IF ~Writable(c) THEN err' = TRUE /\ UNCHANGED <<fs, out>>
     ELSE fs' = [fs EXCEPT ![Target(c)] = Text] /\ UNCHANGED <<out, err>>

Next == ParseArgs \/ CheckExists \/ Load \/ Parse \/ Clean \/ Size \/ OnErr \/ WriteOut
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what a user relies on *)
Started(f) == IF f = "in" THEN InState(c) ELSE OutState(c)

InputSafe == Target(c) # "in" => fs["in"] = Started("in")
\* the output file changes to the cleaned text, or to a copy of the input on error
OutputSound ==
  \A f \in {"in", "out"} : fs[f] # Started(f) =>
    \/ fs[f] = Text /\ f = Target(c) /\ ~err /\ c.kind \in Cleanable /\ (c.kind = "grows" => c.bigger)
    \/ fs[f] = "input" /\ err /\ c.copy /\ f = "out" /\ Target(c) = "out" /\ FromFile(c)
NothingOnError == err => out = "" /\ (~c.copy => \A f \in {"in", "out"} : fs[f] = Started(f))
\* a cleanable input that need not grow is cleaned
Progress == pc = "done" /\ c.form \notin Rejected /\ c.kind \in {"shrinks", "equal"} /\ Writable(c) =>
              ~err /\ (IF Target(c) = "" THEN out = Text ELSE fs[Target(c)] = Text)
CopyOnError == pc = "done" /\ err /\ c.form \notin Rejected /\ c.copy /\ FromFile(c) /\ Target(c) = "out" /\ Writable(c) /\ fs["in"] = "input"
               => fs["out"] = "input"
Inv == InputSafe /\ OutputSound /\ NothingOnError /\ Progress /\ CopyOnError

\* the summary line is printed after a successful run only, and not when quiet
Stats == ~err' /\ ~c.quiet
\* every terminal state is a test case (an action constraint that always holds)
Emit == pc' = "done" => PrintT("CASE " \o ToJson([c |-> c, in |-> fs'["in"], out |-> fs'["out"], stdout |-> out', err |-> err', stats |-> Stats]))
=============================================================================
