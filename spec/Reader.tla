------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Why the decode_size protocol is enough: a receiver that knows only the  *)
(* answers of decode_size, over any stream of frames, arriving in any      *)
(* pieces, with any implementation whose answers lie in the intervals of   *)
(* Wire!SizeAnswers (those the C04 check compares the real ones with).     *)
(*                                                                         *)
(* The sender writes the frames of `todo` one after another and may stall  *)
(* for ever after the last one: a receiver that asked for more than its    *)
(* frame would then never deliver it.                                      *)
(***************************************************************************)
EXTENDS Wire

VARIABLES leaves, todo, sent, buf, want, got
vars == <<leaves, todo, sent, buf, want, got>>

Num(w, big) == NumLeaf([k |-> "uint", w |-> w, tw |-> 8, big |-> big, ref |-> 0, cv |-> <<>>])
Konst == ConstLeaf([k |-> "uint", w |-> 8, tw |-> 8, big |-> FALSE, ref |-> 0, cv |-> IntBits(165, 8)])
Str == DynLeaf([k |-> "str"])
Byt == DynLeaf([k |-> "byt"])
Shapes == {<<Num(8, FALSE)>>, <<Str>>, <<Byt>>, <<Num(8, TRUE), Str, Byt>>, <<Byt, Str, Konst>>, <<Str, Str, PadLeaf(8)>>, <<Num(3, TRUE), PadLeaf(5), Byt, Byt>>}
Values(lf) == CASE lf.op = "num" -> {IntBits(0, 8), IntBits(5, 8)}
                [] lf.op = "str" -> {<<>>, <<65>>, <<65, 66>>}
                [] lf.op = "byt" -> {<<>>, <<0>>, <<1, 0, 9>>}
RECURSIVE ValueLists(_)
ValueLists(ls) == IF ls = <<>> THEN {<<>>} ELSE {<<v>> \o r : v \in Values(Head(ls)), r \in ValueLists(Tail(ls))}
Frames(ls) == {EncodeFresh(ls, v) : v \in ValueLists(ValueLeaves(ls))}
Cat(fs) == FlattenSeq(fs)

Init == /\ leaves \in Shapes
        /\ \E a \in Frames(leaves), b \in Frames(leaves) : todo = <<a, b>>
        /\ sent = <<>> /\ buf = <<>> /\ want = 0 /\ got = <<>>
(* one byte arrives, if the receiver is waiting for one *)
Arrive == /\ Len(buf) < want /\ Len(sent) < Len(Cat(todo))
          /\ LET b == Cat(todo)[Len(sent) + 1] IN sent' = Append(sent, b) /\ buf' = Append(buf, b)
          /\ UNCHANGED <<leaves, todo, want, got>>
(* the receiver holds what it waited for and asks decode_size *)
Ask == /\ Len(buf) >= want /\ Len(got) < Len(todo)
       /\ LET a == SizeAnswers(leaves, buf) IN
          IF a.lo >= 0 /\ a.hi <= Len(buf)
          THEN /\ got' = Append(got, SubSeq(buf, 1, a.lo)) /\ buf' = SubSeq(buf, a.lo + 1, Len(buf)) /\ want' = 0
          ELSE /\ \E r \in a.lo..a.hi : want' = -r
               /\ UNCHANGED <<got, buf>>
       /\ UNCHANGED <<leaves, todo, sent>>
Next == Arrive \/ Ask
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* never waits for a byte of the next frame *)
NeverBeyond == Len(got) < Len(todo) => Len(Cat(got)) + want <= Len(Cat(SubSeq(todo, 1, Len(got) + 1)))
InOrder     == got = SubSeq(todo, 1, Len(got))
Readable    == \A i \in DOMAIN got : Decode(leaves, got[i]).n = Len(got[i])
Delivered   == <>(got = todo)
=============================================================================
