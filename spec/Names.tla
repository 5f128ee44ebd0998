------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names and their styles.                                                 *)
(*                                                                         *)
(* A name is a sequence of characters.  Leading and trailing underscores   *)
(* belong to no word; between them, words are separated by underscores and *)
(* begin at capital letters.  From the words a name is respelled in one of *)
(* four styles.  Every kind of definition demands the case of the first    *)
(* letter and recommends a style; every target spells the members of a     *)
(* type in a style of its own.                                             *)
(*                                                                         *)
(* MODE "all": every name over ALPHABET up to LEN characters, with what    *)
(* the tool must say of it in each kind of definition.                     *)
(* MODE "draw": a type with drawn names and a history of stores through    *)
(* its members; the state is what the fields hold.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

MODE  == IOEnv.MODE
OUT   == IOEnv.OUT
LEN   == atoi(IOEnv.LEN)
STEPS == atoi(IOEnv.STEPS)

VARIABLES name, type, vals, log, phase
vars == <<name, type, vals, log, phase>>

Uppers == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Lowers == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
IsUp(c)  == \E i \in DOMAIN Uppers : Uppers[i] = c
IsLow(c) == \E i \in DOMAIN Lowers : Lowers[i] = c
IsDig(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Up(c)    == IF IsLow(c) THEN Uppers[CHOOSE i \in DOMAIN Lowers : Lowers[i] = c] ELSE c
Low(c)   == IF IsUp(c) THEN Lowers[CHOOSE i \in DOMAIN Uppers : Uppers[i] = c] ELSE c
AllUp(w)  == [i \in DOMAIN w |-> Up(w[i])]
AllLow(w) == [i \in DOMAIN w |-> Low(w[i])]
Cap(w)    == IF w = <<>> THEN w ELSE <<Up(Head(w))>> \o AllLow(Tail(w))
RECURSIVE Join(_, _), Letters(_)
Join(ws, sep) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o Join(Tail(ws), sep)
Letters(n) == SelectSeq(AllLow(n), LAMBDA c : c # "_")

-----------------------------------------------------------------------------
(* The words of a name *)

Solid(n)  == {i \in DOMAIN n : n[i] # "_"}
First(n)  == CHOOSE i \in Solid(n) : \A j \in Solid(n) : i <= j
Final(n)  == CHOOSE i \in Solid(n) : \A j \in Solid(n) : i >= j
Before(n) == IF Solid(n) = {} THEN n ELSE SubSeq(n, 1, First(n) - 1)
After(n)  == IF Solid(n) = {} THEN <<>> ELSE SubSeq(n, Final(n) + 1, Len(n))
Core(n)   == IF Solid(n) = {} THEN <<>> ELSE SubSeq(n, First(n), Final(n))
(* in a name without lower case letters, adjacent capitals are one word *)
Loud(n)   == \A i \in DOMAIN n : ~IsLow(n[i])
Starts(c, i) == /\ c[i] # "_"
                /\ \/ i = 1
                   \/ c[i - 1] = "_"
                   \/ IsUp(c[i]) /\ ~(Loud(c) /\ IsUp(c[i - 1]))
WordAt(c, i) == LET ends == {j \in i..Len(c) : j = Len(c) \/ c[j + 1] = "_" \/ Starts(c, j + 1)}
                IN SubSeq(c, i, CHOOSE j \in ends : \A k \in ends : j <= k)
Words(n) == LET c == Core(n)
                RECURSIVE From(_)
                From(i) == IF i > Len(c) THEN <<>> ELSE IF Starts(c, i) THEN <<WordAt(c, i)>> \o From(i + 1) ELSE From(i + 1)
            IN From(1)
Each(ws, F(_)) == [i \in DOMAIN ws |-> F(ws[i])]

Around(n, body) == Before(n) \o body \o After(n)
Snake(n)  == Around(n, Join(Each(Words(n), AllLow), <<"_">>))
Caps(n)   == Around(n, Join(Each(Words(n), AllUp), <<"_">>))
Pascal(n) == Around(n, Join(Each(Words(n), Cap), <<>>))
Camel(n)  == LET ws == Words(n) IN
             Around(n, IF ws = <<>> THEN <<>> ELSE AllLow(ws[1]) \o Join(Each(Tail(ws), Cap), <<>>))

-----------------------------------------------------------------------------
(* What a kind of definition demands and recommends.  A name that was all
   capitals may become one word when its underscores go, so the recommended
   form is respelled again. *)

Kinds == {"struct", "enum", "member", "field", "method"}
Accepted(k, n) == /\ Solid(n) # {}
                  /\ IF k \in {"field", "method"} THEN IsLow(n[First(n)]) ELSE IsUp(n[First(n)])
Recommended(k, n) == CASE k \in {"struct", "enum"} -> Pascal(Pascal(n))
                       [] k = "member" -> Caps(Caps(n))
                       [] OTHER -> Snake(Snake(n))
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE Head(s) \o Text(Tail(s))
Verdict(k, n) == IF ~Accepted(k, n) THEN "error" ELSE IF Recommended(k, n) = n THEN "ok" ELSE Text(Recommended(k, n))

-----------------------------------------------------------------------------
(* All names *)

Alphabet == {"q", "Q", "7", "_"}
Emit(r) == Serialize(ToJson(r) \o "\n", OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Grow == /\ phase = "grow" /\ Len(name) < LEN
        /\ \E c \in Alphabet : (name # <<>> \/ ~IsDig(c)) /\ name' = Append(name, c)
        /\ UNCHANGED <<type, vals, log, phase>>
Judge == /\ phase = "grow" /\ name # <<>> /\ phase' = "done"
         /\ Emit([name |-> Text(name), kinds |-> [k \in Kinds |-> Verdict(k, name)]])
         /\ UNCHANGED <<name, type, vals, log>>

-----------------------------------------------------------------------------
(* A type of drawn names.  Letters are those that make no keyword of any
   language.  Names differ in more than underscores and case, or one target or
   another could not tell them apart. *)

Pick(S) == RandomElement(S)
CharSet(first) == IF first THEN {"q", "x", "z", "w"} ELSE {"q", "x", "z", "w", "Q", "X", "Z", "7", "4", "_"}
RECURSIVE Chars(_)
Chars(k) == IF k = 0 THEN <<>> ELSE <<Pick(CharSet(FALSE))>> \o Chars(k - 1)
Drawn(lead) == (IF RandomElement(1..100) <= lead THEN <<"_">> ELSE <<>>) \o <<Pick(CharSet(TRUE))>> \o Chars(RandomElement(0..6))
Big(n)  == [n EXCEPT ![First(n)] = Up(@)]
NoTail(n) == SubSeq(n, 1, Final(n))

NamePackage == /\ Len(type.package) < type.np
    /\ \E n \in {Drawn(0)} :
          IF Letters(n) \in type.used THEN UNCHANGED type
          ELSE type' = [type EXCEPT !.package = Append(@, n), !.used = @ \cup {Letters(n)}]
NameField(lead) == /\ Len(type.package) = type.np /\ Len(type.fields) < type.nf
    /\ \E n \in {Drawn(lead)} :
          IF Letters(n) \in type.used THEN UNCHANGED type
          ELSE type' = [type EXCEPT !.fields = Append(@, n), !.used = @ \cup {Letters(n)}]
NameMethod == /\ Len(type.package) = type.np /\ Len(type.fields) = type.nf /\ Len(type.methods) < type.nm
    /\ \E n \in {Drawn(20)} : \E f \in {RandomElement(1..type.nf)} :
          IF Letters(n) \in type.used THEN UNCHANGED type
          ELSE type' = [type EXCEPT !.methods = Append(@, [name |-> n, f |-> f]), !.used = @ \cup {Letters(n)}]
NameMember == /\ Len(type.methods) = type.nm /\ Len(type.members) < 4
    /\ \E n \in {Drawn(0)} : \E loud \in {RandomElement(1..3) = 1} :
          LET m == Big(IF loud THEN AllUp(n) ELSE n) IN
          IF Letters(m) \in type.used THEN UNCHANGED type
          ELSE type' = [type EXCEPT !.members = Append(@, m), !.used = @ \cup {Letters(m)}]
NameType == /\ phase = "type" /\ UNCHANGED <<name, vals, log>>
    /\ \/ UNCHANGED phase /\ (NamePackage \/ NameField(20) \/ NameMethod \/ NameMember)
       \/ /\ Len(type.members) = 4
          /\ \E s \in {Big(Drawn(0))} : \E e \in {Big(Drawn(0))} :
                IF Letters(s) = Letters(e) \/ Letters(s) \in type.used \/ Letters(e) \in type.used THEN UNCHANGED <<type, phase>>
                ELSE type' = [type EXCEPT !.sname = s, !.ename = e] /\ phase' = "use"

(* field nf + 1 is of the enum; its value is the number of a member *)
Entry(op, i, v, new) == [op |-> op, i |-> i, v |-> v, st |-> new]
Store == \E i \in {RandomElement(1..type.nf)} : \E v \in {RandomElement(1..255)} :
            LET new == [vals EXCEPT ![i] = v] IN vals' = new /\ log' = Append(log, Entry("raw", i, v, new))
StoreMember == \E j \in {RandomElement(1..4)} :
            LET new == [vals EXCEPT ![type.nf + 1] = j - 1] IN vals' = new /\ log' = Append(log, Entry("member", j, j - 1, new))
Through == \E i \in {RandomElement(1..type.nm)} : \E v \in {RandomElement(1..255)} :
            LET new == [vals EXCEPT ![type.methods[i].f] = v] IN vals' = new /\ log' = Append(log, Entry("set", i, v, new))
Use == /\ phase = "use" /\ Len(log) < STEPS /\ UNCHANGED <<name, type, phase>>
       /\ IF log = <<>> THEN StoreMember ELSE \E k \in {RandomElement(1..7)} : IF k <= 3 THEN Store ELSE IF k <= 5 THEN Through ELSE StoreMember
Styles(n) == [raw |-> Text(n), snake |-> Text(Snake(n)), camel |-> Text(Camel(n)), pascal |-> Text(Pascal(n))]
Finish == /\ phase = "use" /\ Len(log) = STEPS /\ phase' = "done" /\ UNCHANGED <<name, type, vals, log>>
          /\ Emit([package |-> [i \in DOMAIN type.package |-> Styles(type.package[i])], sname |-> Text(type.sname), ename |-> Text(type.ename),
                   fields |-> [i \in DOMAIN type.fields |-> Styles(type.fields[i])],
                   methods |-> [i \in DOMAIN type.methods |-> [f |-> type.methods[i].f, name |-> Styles(type.methods[i].name)]],
                   members |-> [i \in DOMAIN type.members |-> Text(type.members[i])],
                   log |-> log])

Init == /\ name = <<>> /\ log = <<>>
        /\ IF MODE = "all" THEN phase = "grow" /\ vals = <<>> /\ type = [nf |-> 0]
           ELSE /\ phase = "type"
                /\ \E nf \in {RandomElement(2..4)} : \E nm \in {RandomElement(1..2)} : \E np \in {RandomElement(1..3)} :
                      /\ vals = [i \in 1..(nf + 1) |-> 0]
                      /\ type = [nf |-> nf, nm |-> nm, np |-> np, package |-> <<>>, fields |-> <<>>, methods |-> <<>>, members |-> <<>>, used |-> {}, sname |-> <<>>, ename |-> <<>>]
Next == IF MODE = "all" THEN Grow \/ Judge ELSE NameType \/ Use \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Every name that may be given *)
Given == IF MODE = "all" THEN {name} ELSE {type.fields[i] : i \in DOMAIN type.fields}
(* a recommendation is final, keeps the letters and is acceptable itself *)
Final2 == \A n \in Given : \A k \in Kinds : Accepted(k, n) =>
             /\ Recommended(k, Recommended(k, n)) = Recommended(k, n)
             /\ Letters(Recommended(k, n)) = Letters(n)
             /\ Accepted(k, Recommended(k, n))
(* respelling keeps letters and outer underscores, and the first letter decides *)
KeepsLetters == \A n \in Given : \A s \in {Snake(n), Caps(n), Pascal(n), Camel(n)} :
             /\ Letters(s) = Letters(n) /\ Before(s) = Before(n) /\ After(s) = After(n)
(* what is spelled from the words has these words *)
SameWords == \A n \in Given : Each(Words(Snake(n)), AllLow) = Each(Words(n), AllLow)
(* names that may be told apart as given may be told apart in every style *)
Apart == (MODE = "draw" /\ phase = "done") => \A i, j \in DOMAIN type.fields : i # j =>
             \A a \in {Snake(type.fields[i]), Camel(type.fields[i]), Pascal(type.fields[i])} :
             \A b \in {Snake(type.fields[j]), Camel(type.fields[j]), Pascal(type.fields[j])} : a # b
OthersKept == [][MODE = "draw" /\ log' # log => Cardinality({i \in DOMAIN vals : vals[i] # vals'[i]}) <= 1]_vars
=============================================================================
