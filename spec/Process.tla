------------------------------ MODULE Process -------------------------------
(***************************************************************************)
(* The compiler and the generators used as a library, any number of times  *)
(* in one process (compiler.Compile, generator.Generate): source files are *)
(* edited in between, compiled units are kept and generated from later,    *)
(* option objects are shared between calls, some calls fail.               *)
(*                                                                         *)
(* What a call yields is a function of its own arguments: the texts that   *)
(* were on disk when the units were compiled, the target and the options.  *)
(* Nothing else in the history - and no other state of the process - may   *)
(* show.  The binding compares every call of a history with a process of   *)
(* its own that is given these arguments and nothing else.                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

OUT    == IOEnv.OUT
NCALLS == atoi(IOEnv.NCALLS)

Files == 1..4
Targets == {"c", "cpp", "csharp", "commonjs", "esm", "go", "java", "kotlin", "python"}
Flags == {"-single", "-relpath", "-inner", "-minimal", "-decnum", "-memcpy", "-compat"}

VARIABLES disk,     \* what is in each source file
          handles,  \* results of Compile kept by the caller
          opts,     \* option objects of the caller
          log,      \* calls so far
          done
vars == <<disk, handles, opts, log, done>>

(* a source file: what it declares (ver), what it imports, what is wrong or remarkable with it *)
Text == [ver : 0..63, imps : SUBSET Files, fault : {"none", "syntax", "type", "layout"}, warn : BOOLEAN, go : 0..2, omit : BOOLEAN]

RECURSIVE Close(_, _)
Close(s, d) == LET n == s \cup UNION {d[f].imps : f \in s} IN IF n = s THEN s ELSE Close(n, d)

(* What the calls yield *)
Compiled(d, main) ==
    LET r == Close({main}, d) IN
    [main |-> main, snap |-> [f \in Files |-> IF f \in r THEN d[f] ELSE [d[f] EXCEPT !.ver = 64]], reach |-> r, ok |-> \A f \in r : d[f].fault = "none"]
(* a go_package or java_package may be used once; a unit without types (version 0) that asks for it is left out *)
Omitted(t) == t.omit /\ t.ver = 0
Clash(h) == \E f, g \in h.reach : f # g /\ h.snap[f].go # 0 /\ h.snap[f].go = h.snap[g].go /\ ~Omitted(h.snap[f]) /\ ~Omitted(h.snap[g])
GenOK(h, t) == ~(t \in {"go", "java"} /\ Clash(h))
Outcome(h, t, o) == [ok |-> GenOK(h, t), of |-> <<h.main, h.snap, t, o>>]

-----------------------------------------------------------------------------
NoText == [ver |-> 1, imps |-> {}, fault |-> "none", warn |-> FALSE, go |-> 0, omit |-> FALSE]
Init == disk = [f \in Files |-> NoText] /\ handles = <<>> /\ opts = <<>> /\ log = <<>> /\ done = FALSE

Option == /\ Len(opts) < 3
          /\ \E s \in {RandomElement({S \in SUBSET Flags : Cardinality(S) <= 4})} : \E u \in {RandomElement({-1, 0, 4, 4, 4, 9})} : \E x \in {RandomElement({"shift", "arith"})} : \E r \in {RandomElement(1..3)} :
             opts' = Append(opts, [flags |-> s, unroll |-> u, signext |-> x, rm |-> r = 1])
          /\ UNCHANGED <<disk, handles, log, done>>

(* the files are first written from the last to the first, then edited at random *)
Edited == {log[i].f : i \in {j \in DOMAIN log : log[j].op = "edit"}}
Edit == \E f \in {IF Edited # Files THEN CHOOSE g \in Files \ Edited : \A x \in Files \ Edited : x <= g ELSE RandomElement(Files)} :
        \E z \in {RandomElement(1..8) = 1} : \E v \in {RandomElement(1..63)} : \E i \in {RandomElement(SUBSET Files)} : \E b \in {RandomElement(1..14) = 1} :
        \E w \in {RandomElement({"syntax", "type", "layout"})} : \E u \in {RandomElement(1..4) = 1} : \E p \in {RandomElement(0..3)} : \E om \in {RandomElement(1..2) = 1} :
        LET t == [ver |-> IF z THEN 0 ELSE v, imps |-> {g \in i : g > f}, fault |-> IF b THEN w ELSE "none", warn |-> u, go |-> IF p = 3 THEN 0 ELSE p, omit |-> om] IN
        /\ disk' = [disk EXCEPT ![f] = t]
        /\ log' = Append(log, [op |-> "edit", f |-> f, text |-> t])
        /\ UNCHANGED <<handles, opts, done>>

Compile == /\ \E m \in {RandomElement({1, 1, 1, 2, 3, 4})} : \E cwd \in {RandomElement(0..2)} :
              /\ handles' = Append(handles, Compiled(disk, m))
              /\ log' = Append(log, [op |-> "compile", main |-> m, ok |-> Compiled(disk, m).ok, cwd |-> cwd])
           /\ UNCHANGED <<disk, opts, done>>

Generate == /\ \E h \in DOMAIN handles : handles[h].ok
            /\ \E h \in {RandomElement({x \in DOMAIN handles : handles[x].ok})} : \E o \in {RandomElement(DOMAIN opts)} : \E t \in {RandomElement(Targets)} :
               LET r == Outcome(handles[h], t, opts[o]) IN
               log' = Append(log, [op |-> "generate", h |-> h, o |-> o, target |-> t, ok |-> r.ok])
            /\ UNCHANGED <<disk, handles, opts, done>>
Refuse == \* a target that does not exist
          /\ \E h \in {RandomElement({x \in DOMAIN handles : handles[x].ok})} : log' = Append(log, [op |-> "generate", h |-> h, o |-> 1, target |-> "none", ok |-> FALSE])
          /\ UNCHANGED <<disk, handles, opts, done>>

Count(s) == Cardinality({i \in DOMAIN log : log[i].op = s})
Step == IF Len(opts) < 3 THEN Option
        ELSE IF Edited # Files THEN Edit
        ELSE IF handles = <<>> \/ ~(\E h \in DOMAIN handles : handles[h].ok) THEN (IF Count("compile") > Count("edit") - 4 THEN \/ Edit \/ Compile ELSE Compile)
        ELSE \E x \in {RandomElement(1..10)} : IF x <= 2 THEN Edit ELSE IF x = 3 THEN Compile ELSE IF x = 4 THEN \E y \in {RandomElement(1..3)} : IF y = 1 THEN Refuse ELSE Generate ELSE Generate

Next == \/ /\ ~done /\ Len(log) < NCALLS /\ Step
        \/ /\ ~done /\ Len(log) >= NCALLS
           /\ Serialize(ToJson([log |-> log, opts |-> opts, handles |-> handles]) \o "\n", OUT,
                 [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
           /\ done' = TRUE /\ UNCHANGED <<disk, handles, opts, log>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* A handle never changes, whatever is edited, compiled or generated later. *)
Stable == [][\A h \in DOMAIN handles : handles'[h] = handles[h]]_vars
OptsStable == [][\A o \in DOMAIN opts : opts'[o] = opts[o]]_vars
=============================================================================
