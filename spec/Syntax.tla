------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* What a schema file is, as text: the grammar and the lexical rules of    *)
(* bubbler.g4.                                                             *)
(*                                                                         *)
(* A behaviour draws a sequence of tokens (derived from the grammar, or    *)
(* read by the lexer below from a well-formed schema of the pool), spoils  *)
(* it now and then, writes it down with drawn blank space, comments and    *)
(* stray characters between the tokens, and reads it with a chart parser   *)
(* (Earley), one token per step.  The machine knows where the first token  *)
(* stands that cannot follow what came before it: that is where a syntax   *)
(* error has to be reported.  Where the grammar allows an empty statement  *)
(* one is slipped in now and then, and the "," after an enum value may     *)
(* become ";": such edits, and all blank space and comments, mean nothing. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

OUT    == IOEnv.OUT
POOL   == IF IOEnv.POOL = "" THEN <<>> ELSE JsonDeserialize(IOEnv.POOL)  \* texts of well-formed schemas
SPOIL  == atoi(IOEnv.SPOIL)   \* percent of the sequences that are spoiled
MAXTOK == atoi(IOEnv.MAXTOK)  \* a derivation is wound up beyond that many tokens
MODE   == IOEnv.MODE          \* "draw", or "all": everything that can follow some beginnings, to MAXTOK tokens beyond

VARIABLES stack,     \* derivation: symbols still to be expanded
          src,       \* the text taken from the pool, or ""
          toks,      \* the tokens, each <<class, text>>
          spoilt,    \* was the sequence of tokens tampered with?
          chart,     \* Earley sets, chart[i] after i - 1 tokens
          text, line, col,
          at,        \* where each token starts: <<line, column>>
          junk,      \* where characters stand that start no token
          wrong,     \* 0, or the number of the first impossible token (Len + 1: the end)
          phase
vars == <<stack, src, toks, spoilt, chart, text, line, col, at, junk, wrong, phase>>

With(x, Op(_)) == CHOOSE y \in {Op(z) : z \in {x}} : TRUE
Chance(p) == {RandomElement(1..100) <= p}
Range(s) == {s[i] : i \in DOMAIN s}
Ch(s, i) == IF i < 1 \/ i > Len(s) THEN "" ELSE SubSeq(s, i, i)
Chars(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}

-----------------------------------------------------------------------------
(* Grammar.  The first alternative of each symbol leads to an end. *)
Rep(x, xs) == <<<<>>, <<xs, x>>>>
G == [ proto    |-> <<<<"items">>>>,
       items    |-> Rep("item", "items"),
       item     |-> <<<<"empty">>, <<"struct", "ID", "size0", "{", "selems", "}">>, <<"enumDef">>, <<"struct", "ID", "size0", "{", "selems", "}">>,
                      <<"import", "STR", ";">>, <<"package", "full", ";">>, <<"option", "ID", "=", "constant", ";">>>>,
       empty    |-> <<<<";">>>>,
       full     |-> <<<<"ID">>, <<"full", ".", "ID">>>>,
       constant |-> <<<<"sign", "INT">>, <<"sign", "FLOAT">>, <<"STR">>, <<"BOOL">>>>,
       sign     |-> <<<<>>, <<"-">>, <<"+">>>>,
       size     |-> <<<<"[", "INT", "]">>, <<"[", "INT", "#", "INT", "]">>, <<"[", "#", "INT", "]">>>>,
       size0    |-> <<<<>>, <<"size">>>>,
       name0    |-> <<<<>>, <<"ID">>>>,
       selems   |-> Rep("selem", "selems"),
       selem    |-> <<<<"empty">>, <<"void", "size", "opts0", ";">>,
                      <<"BASIC", "name0", "size0", "=", "constid", "opts0", ";">>,
                      <<"type", "opts0", ";">>,
                      <<"type", "ID", "size0", "opts0", "meths0", ";">>,
                      <<"type", "ID", "size0", "opts0", "meths0", ";">>>>,
       constid  |-> <<<<"constant">>, <<"ID">>>>,
       opts0    |-> <<<<>>, <<"[", "opts", "]">>>>,
       opts     |-> <<<<"opt">>, <<"opts", ",", "opt">>>>,
       opt      |-> <<<<"ID", "=", "constant">>>>,
       meths0   |-> <<<<>>, <<"{", "meths", "}">>>>,
       meths    |-> Rep("meth", "meths"),
       meth     |-> <<<<"getset", "name0", "(", "BASIC", ")", ":", "expr", ";">>>>,
       getset   |-> <<<<"get">>, <<"set">>>>,
       plain    |-> <<<<"BASIC">>, <<"string">>, <<"bytes">>, <<"ID">>, <<"enum", "ID">>, <<"struct", "ID">>,
                      <<"struct", "ID", "size0", "{", "selems", "}">>>>,
       type     |-> <<<<"plain">>, <<"plain", "<", "INT", ">">>>>,
       enumDef  |-> <<<<"enum", "ID", "size", "{", "eelems", "}">>>>,
       eelems   |-> Rep("eelem", "eelems"),
       eelem    |-> <<<<"empty">>, <<"ID", "evalue", "opts0", "vsep">>, <<"ID", "evalue", "opts0", "vsep">>>>,
       evalue   |-> <<<<>>, <<"=", "constid">>>>,
       vsep     |-> <<<<",">>, <<";">>>>,
       expr     |-> <<<<"operand">>, <<"expr", "binop", "operand">>, <<"expr", "?", "expr", ":", "expr">>>>,
       operand  |-> <<<<"value">>, <<"constant">>, <<"(", "expr", ")">>, <<"unop", "operand">>, <<"(", "BASIC", ")", "operand">>>>,
       unop     |-> <<<<"+">>, <<"-">>, <<"~">>, <<"!">>>>,
       binop    |-> <<<<"**">>, <<"*">>, <<"/">>, <<"%">>, <<"+">>, <<"-">>, <<"<<">>, <<">>">>, <<"<">>, <<"<=">>, <<">">>, <<">=">>,
                      <<"==">>, <<"!=">>, <<"&">>, <<"^">>, <<"|">>, <<"&&">>, <<"||">>>> ]
NonTerms == DOMAIN G

BasicWords == {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}
Words == {"import", "package", "option", "get", "set", "value", "void", "string", "bytes", "enum", "struct"}
Puncts == {"#", ";", "=", "?", "(", ")", "[", "]", "{", "}", "<", "<=", ">", ">=", "==", "!=", ".", ",", ":", "+", "-", "*", "/", "%", "**",
           "<<", ">>", "&", "|", "^", "~", "&&", "||", "!"}
Terms == Words \cup Puncts \cup {"ID", "INT", "FLOAT", "STR", "BOOL", "BASIC"}

Texts(c) ==
    CASE c = "ID"    -> {"a", "b", "Foo", "Bar", "x1", "_", "_z9", "getx", "value_", "int", "uint", "int128", "uint8_t", "truex", "e5", "E1", "x", "Struct", "infinity"}
      [] c = "INT"   -> {"0", "1", "2", "8", "16", "255", "012", "00", "0x1F", "0X0a", "9007199254740993", "18446744073709551616"}
      [] c = "FLOAT" -> {"1.5", "2.", ".5", "1e3", "0.25E-2", "08.5", "1.e+1", "inf", "nan", "1e999"}
      [] c = "STR"   -> {"\"big\"", "'little'", "\"\"", "''", "\"// x\"", "'/* '", "\"a\\\"b\"", "\" */ \"", "'\\x41\\n'", "\"; }\""}
      [] c = "BOOL"  -> {"true", "false"}
      [] c = "BASIC" -> BasicWords
      [] OTHER       -> {c}

-----------------------------------------------------------------------------
(* Lexical rules: the token that starts at i is the longest possible one. *)
Digits == Chars("0123456789")
Octal  == Chars("01234567")
Hexes  == Chars("0123456789abcdefABCDEF")
Letters == Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
Blank  == {" ", "\t", "\r", "\n", "\f"}

RECURSIVE Run(_, _, _)          \* the end (exclusive) of the run of characters of S from i on
Run(s, i, S) == IF Ch(s, i) \in S THEN Run(s, i + 1, S) ELSE i
Exponent(s, i) == IF Ch(s, i) \notin {"e", "E"} THEN i
                  ELSE LET j == IF Ch(s, i + 1) \in {"+", "-"} THEN i + 2 ELSE i + 1 IN
                       IF Ch(s, j) \in Digits THEN Run(s, j, Digits) ELSE i
NumberEnd(s, i) ==
    LET d == Run(s, i, Digits)                        \* i: no digits
        f == IF d = i THEN (IF Ch(s, i) = "." /\ Ch(s, i + 1) \in Digits THEN Exponent(s, Run(s, i + 1, Digits)) ELSE i)
             ELSE IF Ch(s, d) = "." THEN Exponent(s, Run(s, d + 1, Digits))
             ELSE IF Exponent(s, d) > d THEN Exponent(s, d) ELSE i
        n == IF d = i THEN i
             ELSE IF Ch(s, i) # "0" THEN d
             ELSE IF Ch(s, i + 1) \in {"x", "X"} /\ Ch(s, i + 2) \in Hexes THEN Run(s, i + 2, Hexes)
             ELSE Run(s, i, Octal) IN
    [end |-> IF f > n THEN f ELSE n, float |-> f > n]
RECURSIVE Quoted(_, _, _)       \* the end of a string whose inside starts at i; 0: none
Quoted(s, i, q) == CASE Ch(s, i) \in {"", "\n"} -> 0
                     [] Ch(s, i) = q -> i + 1
                     [] Ch(s, i) = "\\" -> IF Ch(s, i + 1) = "x" THEN Quoted(s, i + 4, q) ELSE Quoted(s, i + 2, q)
                     [] OTHER -> Quoted(s, i + 1, q)
RECURSIVE Closed(_, _)          \* the end of a comment whose inside starts at i; 0: none
Closed(s, i) == CASE Ch(s, i) = "" -> 0
                  [] Ch(s, i) = "*" /\ Ch(s, i + 1) = "/" -> i + 2
                  [] OTHER -> Closed(s, i + 1)
RECURSIVE ToEol(_, _)
ToEol(s, i) == IF Ch(s, i) \in {"", "\n", "\r"} THEN i ELSE ToEol(s, i + 1)

(* [c, end]: class "" for what is skipped, "stray" for a character that starts no token *)
TokenAt(s, i) ==
    LET c == Ch(s, i) two == c \o Ch(s, i + 1) n == NumberEnd(s, i) IN
    CASE c \in Blank -> [c |-> "", end |-> i + 1]
      [] two = "//" -> [c |-> "", end |-> ToEol(s, i)]
      [] two = "/*" /\ Closed(s, i + 2) > 0 -> [c |-> "", end |-> Closed(s, i + 2)]
      [] c \in Letters -> LET e == Run(s, i, Letters \cup Digits) w == SubSeq(s, i, e - 1) IN
            [end |-> e, c |-> CASE w \in BasicWords -> "BASIC" [] w \in Words \cup {"syntax"} -> w [] w \in {"true", "false"} -> "BOOL"
                                [] w \in {"inf", "nan"} -> "FLOAT" [] OTHER -> "ID"]
      [] n.end > i -> [c |-> IF n.float THEN "FLOAT" ELSE "INT", end |-> n.end]
      [] c \in {"'", "\""} /\ Quoted(s, i + 1, c) > 0 -> [c |-> "STR", end |-> Quoted(s, i + 1, c)]
      [] Len(two) = 2 /\ two \in Puncts -> [c |-> two, end |-> i + 2]
      [] c \in Puncts -> [c |-> c, end |-> i + 1]
      [] OTHER -> [c |-> "stray", end |-> i + 1]
RECURSIVE LexFrom(_, _)
LexFrom(s, i) == IF i > Len(s) THEN <<>>
                 ELSE LET t == TokenAt(s, i) IN
                      (IF t.c \in {"", "stray"} THEN <<>> ELSE <<<<t.c, SubSeq(s, i, t.end - 1)>>>>) \o LexFrom(s, t.end)
Lex(s) == LexFrom(s, 1)

-----------------------------------------------------------------------------
(* The chart parser.  An item: <<symbol, alternative, place in it, origin>> *)
Rhs(it) == G[it[1]][it[2]]
Next0(it) == IF it[3] <= Len(Rhs(it)) THEN Rhs(it)[it[3]] ELSE ""
Adv(it) == <<it[1], it[2], it[3] + 1, it[4]>>
RECURSIVE Close(_, _, _, _)     \* new: the items of S not yet looked at
Close(S, new, k, ch) ==
    LET predicted == UNION {{<<n, a, 1, k>> : a \in DOMAIN G[n]} : n \in {Next0(it) : it \in new} \cap NonTerms}
        done == {it \in S : Next0(it) = ""}
        completed == UNION {{Adv(p) : p \in {q \in (IF it[4] = k THEN S ELSE ch[it[4] + 1]) : Next0(q) = it[1]}} :
                            it \in {d \in done : d \in new \/ d[4] = k}}
        more == (predicted \cup completed) \ S IN
    IF more = {} THEN S ELSE Close(S \cup more, more, k, ch)
Start == LET s == {<<"proto", 1, 1, 0>>} IN Close(s, s, 0, <<>>)
Scan(ch, c) == LET k == Len(ch) s == {Adv(it) : it \in {q \in ch[k] : Next0(q) = c}} IN Close(s, s, k, ch)
Last(s) == s[Len(s)]
Complete(ch) == <<"proto", 1, 2, 0>> \in Last(ch)

-----------------------------------------------------------------------------
Init == /\ stack = <<"proto">> /\ src = "" /\ toks = <<>> /\ spoilt = FALSE /\ chart = <<>> /\ text = "" /\ line = 1 /\ col = 1
        /\ at = <<>> /\ junk = <<>> /\ wrong = 0 /\ phase = "source"
Unread == UNCHANGED <<chart, text, line, col, at, junk, wrong>>

Source == /\ phase = "source"
          /\ \E p \in Chance(IF POOL = <<>> THEN 0 ELSE 55) : \E s \in {RandomElement(IF POOL = <<>> THEN {""} ELSE Range(POOL))} :
                IF p THEN phase' = "spoil" /\ src' = s /\ toks' = Lex(s) /\ stack' = stack
                ELSE phase' = "derive" /\ stack' = <<"item", "item", "items">> /\ UNCHANGED <<src, toks>>
          /\ UNCHANGED spoilt /\ Unread

(* leftmost derivation *)
Weight(n) == IF n \in {"items", "selems", "eelems", "meths"} THEN 60 ELSE 50
Derive == /\ phase = "derive" /\ UNCHANGED <<src, spoilt>> /\ Unread
          /\ IF stack = <<>> THEN phase' = "spoil" /\ UNCHANGED <<toks, stack>>
             ELSE LET n == Head(stack) IN
                  IF n \in NonTerms
                  THEN \E stop \in Chance(IF Len(toks) + Len(stack) > MAXTOK THEN 100 ELSE IF Len(G[n]) = 2 THEN 100 - Weight(n) ELSE 0) :
                       \E a \in {RandomElement(DOMAIN G[n])} :
                          stack' = G[n][IF stop THEN 1 ELSE IF Len(G[n]) = 2 THEN 2 ELSE a] \o Tail(stack) /\ UNCHANGED <<toks, phase>>
                  ELSE \E t \in {RandomElement(Texts(n))} : toks' = Append(toks, <<n, t>>) /\ stack' = Tail(stack) /\ UNCHANGED phase

Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, t) == SubSeq(s, 1, i - 1) \o <<t>> \o SubSeq(s, i, Len(s))
Spoil == /\ phase = "spoil"
         /\ \E bad \in Chance(SPOIL) : \E i \in {RandomElement(1..Len(toks))} : \E how \in {RandomElement(1..8)} :
            \E c \in {RandomElement(Terms)} : \E t \in {RandomElement(Texts(c))} : \E j \in {RandomElement(1..Len(toks))} :
               /\ spoilt' = bad
               /\ toks' = IF ~bad THEN toks
                          ELSE CASE how = 1 -> Del(toks, i)
                                 [] how = 2 -> Ins(toks, i, toks[i])
                                 [] how = 3 -> Ins(toks, i, <<c, t>>)
                                 [] how = 4 -> [toks EXCEPT ![i] = <<c, t>>]
                                 [] how = 5 -> [toks EXCEPT ![i] = toks[j], ![j] = toks[i]]
                                 [] how = 6 -> SubSeq(toks, 1, i)
                                 [] how = 7 -> [toks EXCEPT ![i] = <<toks[i][1], RandomElement(Texts(toks[i][1]))>>]
                                 [] how = 8 -> LET like == {k \in DOMAIN toks : toks[k][1] = toks[i][1]} IN [toks EXCEPT ![i] = toks[RandomElement(like)]]
         /\ phase' = "read" /\ chart' = <<Start>>
         /\ UNCHANGED <<stack, src, text, line, col, at, junk, wrong>>

(* --- writing and reading, token by token *)
RECURSIVE Lines(_, _)
Lines(s, i) == IF i > Len(s) THEN 0 ELSE (IF Ch(s, i) = "\n" THEN 1 ELSE 0) + Lines(s, i + 1)
RECURSIVE Tailing(_, _)         \* characters after the last newline of s[1..i]
Tailing(s, i) == IF i = 0 \/ Ch(s, i) = "\n" THEN 0 ELSE 1 + Tailing(s, i - 1)
Move(s) == LET n == Lines(s, 1) IN /\ line' = line + n
                                   /\ col' = (IF n = 0 THEN col ELSE 1) + Tailing(s, Len(s))

Comments == {"/**/", "/* x */", "/***/", "/*\n*/", "/* // */", "/* `` ` */", "/*/ ; }*/", "// x\n", "//\r\n", "// /* `\n", "////\n", "// \" '\n", "/* \" * */", "//\r"}
Spaces == {" ", " ", "  ", "\t", "\n", "\r\n", "\n\n    ", "\f", " \r "}
Strays == {"$", "@", "`", "\\"}    \* starts no token (the backquote stands for a character outside ASCII, here and in comments)
GlueOk(a, b) == /\ ~(a[1] \in {"INT", "FLOAT"} /\ Ch(b[2], 1) \in Letters)
                /\ ~(a[2] = "/" /\ Ch(b[2], 1) \in {"/", "*"})
                /\ Lex(a[2] \o b[2]) = <<a, b>>
(* what stands between a token and the one before it *)
Gap(prev, next, kind, sp1, sp2, cm) ==
    LET glued == CASE kind < 45 -> IF prev = <<>> \/ next = <<>> \/ GlueOk(prev[1], next[1]) THEN "" ELSE sp1
                   [] kind < 75 -> sp1
                   [] kind < 85 -> sp1 \o sp2
                   [] kind < 93 -> cm
                   [] OTHER -> sp1 \o cm \o sp2 IN
    IF glued # "" /\ Ch(glued, 1) = "/" /\ prev # <<>> /\ prev[1][2] = "/" THEN " " \o glued ELSE glued

CanEmpty == \E it \in Last(chart) : it[1] = "empty" /\ it[3] = 1
VsepAt == \E it \in Last(chart) : it[1] = "vsep" /\ it[3] = 1
Put(tk) == /\ toks' = tk
           /\ LET i == Len(at) + 1 t == tk[i] IN
              \E kind \in {RandomElement(0..99)} : \E sp1 \in {RandomElement(Spaces)} : \E sp2 \in {RandomElement(Spaces)} : \E cm \in {RandomElement(Comments)} :
              \E g \in {Gap(IF i = 1 THEN <<>> ELSE <<tk[i - 1]>>, <<t>>, kind, sp1, sp2, cm)} :
                 /\ text' = text \o g \o t[2]
                 /\ LET n == Lines(g, 1)
                        l == line + n
                        c == (IF n = 0 THEN col ELSE 1) + Tailing(g, Len(g)) IN
                    /\ at' = Append(at, <<l, c>>)
                    /\ line' = l /\ col' = c + Len(t[2])
              /\ LET s == Scan(chart, t[1]) IN
                 IF wrong > 0 THEN UNCHANGED <<chart, wrong>>
                 ELSE IF s = {} THEN wrong' = i /\ UNCHANGED chart
                 ELSE chart' = Append(chart, s) /\ UNCHANGED wrong
           /\ UNCHANGED <<stack, src, spoilt, junk, phase>>
Read == /\ phase = "read" /\ Len(at) < Len(toks)
        /\ \E e \in Chance(15) : \E v \in Chance(30) :
           LET i == Len(at) + 1 IN
           Put(CASE wrong = 0 /\ e /\ CanEmpty -> Ins(toks, i, <<";", ";">>)
                 [] wrong = 0 /\ v /\ VsepAt /\ toks[i][1] = "," -> [toks EXCEPT ![i] = <<";", ";">>]
                 [] wrong = 0 /\ v /\ VsepAt /\ toks[i][1] = ";" -> [toks EXCEPT ![i] = <<",", ",">>]
                 [] OTHER -> toks)

(* a stray character, only in texts that will be refused anyway because of it *)
Stray == /\ phase = "read" /\ SPOIL > 0 /\ junk = <<>> /\ Len(at) < Len(toks) /\ Len(at) > 0
         /\ \E yes \in {RandomElement(1..1500) <= SPOIL} : yes
         /\ \E s \in {RandomElement(Strays)} :
               /\ text' = text \o " " \o s \o " "
               /\ junk' = <<<<line, col + 1>>>>
               /\ col' = col + 3 /\ line' = line
         /\ UNCHANGED <<stack, src, toks, spoilt, chart, at, wrong, phase>>

Finish == /\ phase = "read" /\ Len(at) = Len(toks)
          /\ \E kind \in {RandomElement(0..99)} : \E sp1 \in {RandomElement(Spaces)} : \E sp2 \in {RandomElement(Spaces)} :
             \E cm \in {RandomElement(Comments \cup {"//", "// end", "//`"})} :
             \E g \in {Gap(IF toks = <<>> THEN <<>> ELSE <<Last(toks)>>, <<>>, kind, sp1, IF kind > 95 THEN "" ELSE sp2, cm)} :
                text' = text \o g /\ Move(g)
          /\ wrong' = IF wrong = 0 /\ ~Complete(chart) THEN Len(toks) + 1 ELSE wrong
          /\ phase' = "done" /\ UNCHANGED <<stack, src, toks, spoilt, chart, at, junk>>
Place(i) == IF i > Len(toks) THEN <<line, col>> ELSE at[i]

Write == /\ phase = "done" /\ phase' = "written" /\ UNCHANGED <<stack, src, toks, spoilt, chart, text, line, col, at, junk, wrong>>
         /\ Serialize(ToJson([src |-> src, same |-> MODE = "draw" /\ src # "" /\ ~spoilt /\ junk = <<>>, text |-> text, wrong |-> wrong, ntok |-> Len(toks), junk |-> junk,
                              place |-> IF wrong = 0 THEN <<>> ELSE Place(wrong)]) \o "\n",
                      OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

(* --- exhaustively: after each beginning, all sequences of up to MAXTOK tokens,
   of which at most the last one is impossible *)
Begins == {"", "import", "package a", "option a =", "struct S {", "struct S [", "struct S { uint8", "struct S { uint8 a", "struct S { uint8 a [ 1",
           "struct S { uint8 a [ order = \"big\"", "struct S { void [ 1 ]", "struct S { uint8 = -", "struct S { T", "struct S { T < 1", "struct S { string a",
           "struct S { struct T", "struct S { struct T { }", "struct S { enum", "struct S { uint8 a { get", "struct S { uint8 a { set x ( uint8",
           "struct S { uint8 a { get x ( uint8 ) :", "struct S { uint8 a { get x ( uint8 ) : value", "struct S { uint8 a { get x ( uint8 ) : ( bool )",
           "struct S { uint8 a { get x ( uint8 ) : ( value", "struct S { uint8 a { get x ( uint8 ) : value ? 1", "struct S { uint8 a { get x ( uint8 ) : 1 ; }",
           "enum E", "enum E [ # 1 ] {", "enum E [ 1 ] { A", "enum E [ 1 ] { A =", "enum E [ 1 ] { A = B [ x = true", "struct S { uint8 a ; } ;"}
OneText(c) == CASE c = "ID" -> "b" [] c = "INT" -> "2" [] c = "FLOAT" -> "1.5" [] c = "STR" -> "\"x\"" [] c = "BOOL" -> "true" [] c = "BASIC" -> "int8" [] OTHER -> c
RECURSIVE ScanAll(_, _)
ScanAll(ch, tk) == IF tk = <<>> THEN ch ELSE ScanAll(Append(ch, Scan(ch, Head(tk)[1])), Tail(tk))
Begin == /\ phase = "source" /\ \E b \in Begins :
              /\ src' = b /\ text' = b /\ col' = 1 + Len(b) /\ toks' = Lex(b) /\ chart' = ScanAll(<<Start>>, Lex(b))
              /\ at' = [i \in DOMAIN Lex(b) |-> <<1, 0>>]
         /\ phase' = "grow" /\ UNCHANGED <<stack, spoilt, line, junk, wrong>>
Grow == /\ phase = "grow" /\ Len(toks) < Len(Lex(src)) + MAXTOK
        /\ \E c \in Terms :
              LET s == Scan(chart, c) t == OneText(c) IN
              /\ toks' = Append(toks, <<c, t>>) /\ text' = text \o " " \o t /\ at' = Append(at, <<1, col + 1>>) /\ col' = col + 1 + Len(t)
              /\ IF s = {} THEN wrong' = Len(toks) + 1 /\ phase' = "done" /\ UNCHANGED chart
                 ELSE chart' = Append(chart, s) /\ UNCHANGED <<wrong, phase>>
        /\ UNCHANGED <<stack, src, spoilt, line, junk>>
Stop == /\ phase = "grow" /\ Len(toks) > Len(Lex(src)) /\ phase' = "done"
        /\ wrong' = IF Complete(chart) THEN 0 ELSE Len(toks) + 1
        /\ UNCHANGED <<stack, src, spoilt, toks, chart, text, line, col, at, junk>>

Next == IF MODE = "all" THEN Begin \/ Grow \/ Stop \/ Write
        ELSE Source \/ Derive \/ Spoil \/ Read \/ Stray \/ Finish \/ Write
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what is derived from the grammar is read by the parser, however it is
   spelled out; what is not spoiled is grammatical; the text reads back *)
ReadsBack == phase = "done" => Lex(text) = toks
Derivable == (phase = "done" /\ ~spoilt /\ MODE = "draw") => wrong = 0
Together  == phase \in {"read", "done"} => (wrong = 0 => Len(chart) = Len(at) + 1)
=============================================================================
