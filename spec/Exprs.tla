------------------------------- MODULE Exprs -------------------------------
(***************************************************************************)
(* Custom getters and setters.                                             *)
(*                                                                         *)
(* A field may carry accessors whose expressions bubbler writes out, not   *)
(* computes, in nine languages.  This module is the meaning all of them    *)
(* must give an expression: a typed syntax tree, its value, and its text   *)
(* in the schema language with a parser for that text.                     *)
(*                                                                         *)
(* The languages' arithmetic differs outside of a common ground (wrapping, *)
(* division of negative numbers, mixed kinds), so Eval is undefined there  *)
(* and such steps are not taken.  A number is n * 2^e; integers have e = 0 *)
(* and stay within 2^24, so that every step is exact in every language.    *)
(*                                                                         *)
(* The state is a struct of three fields, the middle one with accessors;   *)
(* raw writes, gets and sets are its transitions.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

OUT   == IOEnv.OUT
STEPS == atoi(IOEnv.STEPS)

VARIABLES ft, accs, look, fields, log, step
vars == <<ft, accs, look, fields, log, step>>

With(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE
Pick(seq)  == seq[RandomElement(1..Len(seq))]
Chance(p)  == RandomElement(1..100) <= p
Abs(n)     == IF n < 0 THEN -n ELSE n

-----------------------------------------------------------------------------
(* Types *)

Ints   == <<"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64">>
Floats == <<"float32", "float64">>
Nums   == Ints \o Floats
Types  == Nums \o <<"bool">>
IsF(t) == t \in {"float32", "float64"}
IsU(t) == t \in {"uint8", "uint16", "uint32", "uint64"}
IsI(t) == ~IsF(t) /\ t # "bool"
Is64(t) == t \in {"int64", "uint64"}
Bits(t) == CASE t \in {"int8", "uint8"} -> 8 [] t \in {"int16", "uint16"} -> 16 [] OTHER -> 32

Bound == 2^24
Hi(t) == CASE t = "bool" -> 1 [] t = "int8" -> 127 [] t = "uint8" -> 255 [] t = "int16" -> 32767 [] t = "uint16" -> 65535 [] OTHER -> Bound
Lo(t) == IF IsU(t) \/ t = "bool" THEN 0 ELSE CASE t = "int8" -> -128 [] t = "int16" -> -32768 [] OTHER -> -Bound

-----------------------------------------------------------------------------
(* Numbers *)

Num(n, e) == [n |-> n, e |-> e]
Und       == Num(0, 99)
Def(x)    == x.e # 99
RECURSIVE Norm(_, _)
Norm(n, e) == IF n = 0 THEN Num(0, 0) ELSE IF n % 2 = 0 THEN Norm(n \div 2, e + 1) ELSE Num(n, e)
Small(x, b) == Abs(x.n) <= b
Exact(x) == IF Def(x) /\ Abs(x.n) < 2^23 /\ x.e \in -24..24 THEN x ELSE Und
Align(x, y, F(_, _, _)) ==
    LET lo == IF x.e < y.e THEN x.e ELSE y.e IN
    IF x.e - lo > 8 \/ y.e - lo > 8 \/ ~Small(x, 2^21) \/ ~Small(y, 2^21) THEN Und
    ELSE F(x.n * 2^(x.e - lo), y.n * 2^(y.e - lo), lo)
FAdd(x, y) == Exact(Align(x, y, LAMBDA a, b, e : Norm(a + b, e)))
FNeg(x)    == Num(-x.n, x.e)
FMul(x, y) == IF Small(x, 2^14) /\ Small(y, 2^14) THEN Exact(Norm(x.n * y.n, x.e + y.e)) ELSE Und
(* quotient towards zero *)
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
FDiv(x, y) == IF y.n = 0 \/ Abs(x.n) % Abs(y.n) # 0 THEN Und ELSE Exact(Norm(TDiv(x.n, y.n), x.e - y.e))
RECURSIVE FPow(_, _)
FPow(x, k) == IF k = 0 THEN Num(1, 0)
              ELSE With(FPow(x, k - 1), LAMBDA r : IF Def(r) THEN FMul(r, x) ELSE Und)
(* towards zero *)
Whole(x) == IF x.e >= 0 THEN IF Small(x, 2^12) /\ x.e <= 12 THEN Num(x.n * 2^x.e, 0) ELSE Und
            ELSE IF x.e < -29 THEN Num(0, 0) ELSE Num(TDiv(x.n, 2^(-x.e)), 0)

(* bits, two's complement *)
RECURSIVE Bitwise(_, _, _, _, _)
Bitwise(o, a, b, i, p) ==
    IF i = 0 THEN 0
    ELSE LET x == a % 2  y == b % 2
             z == CASE o = "&" -> x * y [] o = "|" -> (IF x + y > 0 THEN 1 ELSE 0) [] o = "^" -> (x + y) % 2
         IN z * p + Bitwise(o, a \div 2, b \div 2, i - 1, p * 2)
BitOp(o, a, b) ==
    LET r == Bitwise(o, a % 2^26, b % 2^26, 26, 1) IN IF r >= 2^25 THEN r - 2^26 ELSE r

-----------------------------------------------------------------------------
(* Expressions: [op, t, a, n, e, c, f, p]; a: operands, c: no "value" in it, *)
(* f: how a literal is spelled, p: written in redundant parentheses          *)

Node(op, t, a, n, e) == [op |-> op, t |-> t, a |-> a, n |-> n, e |-> e,
                         c |-> (op # "value" /\ \A i \in DOMAIN a : a[i].c),
                         f |-> RandomElement(0..5), p |-> Chance(12)]
Value(t)      == Node("value", t, <<>>, 0, 0)
Lit(t, n, e)  == Node("lit", t, <<>>, n, e)
Cast(t, x)    == Node("cast", t, <<x>>, 0, 0)
Un(o, t, x)   == Node(o, t, <<x>>, 0, 0)
Bin(o, t, x, y) == Node(o, t, <<x, y>>, 0, 0)
Tern(t, c, x, y) == Node("?:", t, <<c, x, y>>, 0, 0)

Truth(b) == Num(IF b THEN 1 ELSE 0, 0)
Fit(t, n) == IF n >= Lo(t) /\ n <= Hi(t) THEN Num(n, 0) ELSE Und

Arith(o, t, x, y) ==
    IF IsF(t) THEN
      CASE o = "+" -> FAdd(x, y) [] o = "-" -> FAdd(x, FNeg(y)) [] o = "*" -> FMul(x, y) [] o = "/" -> FDiv(x, y)
        [] o = "**" -> IF y.n \in 0..4 THEN FPow(x, y.n) ELSE Und
    ELSE
      LET a == x.n  b == y.n IN
      CASE o = "+" -> Fit(t, a + b)
        [] o = "-" -> Fit(t, a - b)
        [] o = "*" -> IF a = 0 \/ b = 0 THEN Fit(t, 0) ELSE IF Abs(a) <= 2^15 /\ Abs(b) <= 2^15 THEN Fit(t, a * b) ELSE Und
        [] o = "/" -> IF b = 0 THEN Und ELSE Fit(t, TDiv(a, b))
        [] o = "%" -> IF b <= 0 \/ a < 0 THEN Und ELSE Fit(t, a % b)
        [] o \in {"&", "|", "^"} -> Fit(t, BitOp(o, a, b))
        [] o = "<<" -> IF a < 0 \/ b > 7 THEN Und ELSE IF a <= 2^23 THEN Fit(t, a * 2^b) ELSE Und
        [] o = ">>" -> Fit(t, a \div 2^b)          \* rounds down
Compare(o, x, y) ==
    With(IF x.e = 0 /\ y.e = 0 THEN Num(x.n - y.n, 0) ELSE Align(x, y, LAMBDA a, b, e : Num(a - b, 0)), LAMBDA d :
      IF ~Def(d) THEN Und
      ELSE Truth(CASE o = "<" -> d.n < 0 [] o = "<=" -> d.n <= 0 [] o = ">" -> d.n > 0 [] o = ">=" -> d.n >= 0
                   [] o = "==" -> d.n = 0 [] o = "!=" -> d.n # 0))
Convert(t, from, x) ==
    IF t = "bool" THEN x
    ELSE IF IsF(t) THEN Exact(Norm(x.n, x.e))
    ELSE With(IF IsF(from) THEN Whole(x) ELSE x, LAMBDA w : IF Def(w) THEN Fit(t, w.n) ELSE Und)

(* a Java byte or short that stands for a large unsigned number is negative *)
JavaSees(t, n) == CASE t = "uint8" -> n < 128 [] t = "uint16" -> n < 32768 [] OTHER -> TRUE

(* the value of x where "value" is v: [n, e, j], j: in Java, too *)
R(x, j) == [n |-> x.n, e |-> x.e, j |-> j]
Bad     == R(Und, FALSE)
Rel == {"<", "<=", ">", ">=", "==", "!="}
RECURSIVE Eval(_, _)
Eval(x, v) ==
  IF x.op = "value" THEN R(v, JavaSees(x.t, v.n))
  ELSE IF x.op = "lit" THEN R(Num(x.n, x.e), TRUE)
  ELSE With(Eval(x.a[1], v), LAMBDA l :
    IF ~Def(l) THEN Bad
    ELSE CASE x.op = "cast" -> With(Convert(x.t, x.a[1].t, l), LAMBDA r : R(r, l.j /\ JavaSees(x.t, r.n)))
      [] x.op = "!"   -> R(Num(1 - l.n, 0), l.j)
      [] x.op = "u-"  -> R(IF IsF(x.t) THEN FNeg(l) ELSE Fit(x.t, -l.n), l.j)
      [] x.op = "u+"  -> l
      [] x.op = "u~"  -> R(Fit(x.t, -l.n - 1), l.j)
      [] x.op = "&&"  -> IF l.n = 0 THEN l ELSE With(Eval(x.a[2], v), LAMBDA r : R(r, l.j /\ r.j))
      [] x.op = "||"  -> IF l.n = 1 THEN l ELSE With(Eval(x.a[2], v), LAMBDA r : R(r, l.j /\ r.j))
      [] x.op = "?:"  -> With(Eval(x.a[IF l.n = 1 THEN 2 ELSE 3], v), LAMBDA r : R(r, l.j /\ r.j))
      [] OTHER -> With(Eval(x.a[2], v), LAMBDA r :
           IF ~Def(r) THEN Bad
           ELSE R(IF x.op \in Rel THEN Compare(x.op, l, r) ELSE Arith(x.op, x.t, l, r), l.j /\ r.j)))

(* the outermost cast only gives the result its type *)
Result(x, v) == IF x.op = "cast" THEN With(Eval(x, v), LAMBDA r : IF Def(r) THEN R(r, Eval(x.a[1], v).j) ELSE Bad)
                ELSE Eval(x, v)

-----------------------------------------------------------------------------
(* Drawing expressions *)

LitsI == <<0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 10, 10, 15, 20, 31, 60, 100, 127, 200, 255, 256, 1000, 1024, 4096, 30000, 65535, 100000, 1000000>>
LitsF == << <<0, 0>>, <<1, 0>>, <<1, 1>>, <<3, 0>>, <<5, 1>>, <<25, 2>>, <<1, -1>>, <<3, -1>>, <<5, -1>>, <<1, -2>>, <<7, -3>>,
            <<1, -10>>, <<3, -9>>, <<12345, -4>>, <<1, 10>>, <<15625, 6>>, <<1, -20>> >>
DrawLit(t) ==
    IF t = "bool" THEN Lit(t, RandomElement({0, 1}), 0)
    ELSE IF IsF(t) THEN With(Pick(LitsF), LAMBDA l : Lit(t, IF Chance(15) THEN -l[1] ELSE l[1], l[2]))
    ELSE With(Pick(LitsI), LAMBDA n : IF n > Hi(t) THEN Lit(t, 3, 0)
                                      ELSE Lit(t, IF ~IsU(t) /\ Chance(20) THEN -n ELSE n, 0))

(* A constant part is computed by compilers: it must make sense, and a     *)
(* float must be whole to become an integer                                *)
Fix(x) == IF ~x.c THEN x
          ELSE IF ~Def(Eval(x, Num(0, 0))) THEN DrawLit(x.t)
          ELSE IF x.op = "cast" /\ IsF(x.a[1].t) /\ IsI(x.t) /\ Eval(x.a[1], Num(0, 0)).e < 0 THEN DrawLit(x.t)
          ELSE x
NotZero(x) == IF x.c /\ Eval(x, Num(0, 0)).n = 0 THEN Lit(x.t, 3, 0) ELSE x

OpsI(t) == <<"+", "+", "-", "-", "*", "*", "%", "tdiv", "&", "|", "^", "cast", "cast", "?:", "?:">>
           \o (IF ~Is64(t) THEN <<"<<", ">>", ">>", "u+">> ELSE <<>>)
           \o (IF ~IsU(t) THEN <<"u-", "u-", "u~">> ELSE <<>>)
OpsF(t) == <<"+", "+", "-", "-", "*", "*", "/", "u-", "u+", "cast", "cast", "?:">>
           \o (IF t = "float64" THEN <<"**", "**">> ELSE <<>>)
OpsB    == <<"rel", "rel", "rel", "&&", "&&", "||", "||", "!", "==", "!=", "cast", "?:">>

Leaf(t, vt) ==
    IF vt = t THEN IF Chance(55) THEN Value(t) ELSE DrawLit(t)
    ELSE IF t # "bool" /\ vt # "bool" /\ Chance(65) THEN Cast(t, Value(vt))
    ELSE DrawLit(t)

RECURSIVE Draw(_, _, _)
Branch(t, d, vt) == IF vt = t /\ Chance(35) THEN Value(t)
                    ELSE With(Draw(t, d, vt), LAMBDA x : IF x.op = "cast" THEN x ELSE Cast(t, x))
Draw(t, d, vt) ==
  IF d = 0 \/ Chance(8) THEN Leaf(t, vt)
  ELSE With(Pick(IF t = "bool" THEN OpsB ELSE IF IsF(t) THEN OpsF(t) ELSE OpsI(t)), LAMBDA o :
    CASE o = "cast" -> With(IF t = "bool" THEN "bool" ELSE IF vt # "bool" /\ Chance(50) THEN vt ELSE Pick(Nums), LAMBDA u :
                       With(Draw(u, d - 1, vt), LAMBDA x : Fix(Cast(t, x))))
      [] o = "?:"   -> With(Draw("bool", d - 1, vt), LAMBDA c :
                       With(Branch(t, d - 1, vt), LAMBDA x :
                       With(Branch(t, d - 1, vt), LAMBDA y : Tern(t, c, x, y))))
      [] o = "rel"  -> With(IF vt # "bool" /\ Chance(60) THEN vt ELSE Pick(Nums), LAMBDA u :
                       With(Pick(<<"<", "<=", ">", ">=", "==", "!=">>), LAMBDA r :
                       With(Draw(u, d - 1, vt), LAMBDA x :
                       With(Draw(u, d - 1, vt), LAMBDA y : Fix(Bin(r, "bool", x, y))))))
      [] o \in {"u-", "u+", "u~", "!"} -> With(Draw(t, d - 1, vt), LAMBDA x : Fix(Un(o, t, x)))
      [] o \in {"<<", ">>"} -> With(Draw(t, d - 1, vt), LAMBDA x :
                               With(RandomElement(0..7), LAMBDA k : Fix(Bin(o, t, x, Lit("int32", k, 0)))))
      [] o = "**"   -> With(Draw(t, d - 1, vt), LAMBDA x :
                       With(RandomElement(0..3), LAMBDA k : Fix(Bin(o, t, x, Lit("int32", k, 0)))))
      [] o \in {"/", "%"} -> With(Draw(t, d - 1, vt), LAMBDA x :
                             With(Draw(t, d - 1, vt), LAMBDA z :
                             With(NotZero(z), LAMBDA y : Fix(Bin(o, t, x, y)))))
      [] o = "tdiv" -> With(Draw(t, d - 1, vt), LAMBDA x :
                       With(Draw(t, d - 1, vt), LAMBDA z :
                       With(NotZero(z), LAMBDA y : Fix(Cast(t, Bin("/", t, x, y))))))
      [] OTHER      -> With(Draw(t, d - 1, vt), LAMBDA x :
                       With(Draw(t, d - 1, vt), LAMBDA y : Fix(Bin(o, t, x, y)))))

(* types whose arithmetic needs no cast to be returned or stored anywhere *)
Loose == {"int32", "int64", "float64", "bool"}
DrawTop(t, vt) ==
    With(RandomElement(1..4), LAMBDA d :
    With(Draw(t, d, vt), LAMBDA x :
      IF x.op = "cast" \/ (t \in Loose /\ Chance(50)) THEN x ELSE Cast(t, x)))

-----------------------------------------------------------------------------
(* Text.  Operators bind, from tight to loose: 14 **, 13 unary, 12 cast,   *)
(* 11 * / %, 10 + -, 9 shifts, 8 relations, 7 equality, 6 &, 5 ^, 4 |,     *)
(* 3 &&, 2 ||, 1 ?: ; binary operators group to the left                   *)

BinPrec(o) == CASE o = "**" -> 14 [] o \in {"*", "/", "%"} -> 11 [] o \in {"+", "-"} -> 10 [] o \in {"<<", ">>"} -> 9
                [] o \in {"<", "<=", ">", ">="} -> 8 [] o \in {"==", "!="} -> 7 [] o = "&" -> 6 [] o = "^" -> 5 [] o = "|" -> 4
                [] o = "&&" -> 3 [] o = "||" -> 2 [] OTHER -> 0
Prec(x) == CASE x.op = "value" -> 15 [] x.op = "cast" -> 12 [] x.op \in {"u-", "u+", "u~", "!"} -> 13 [] x.op = "?:" -> 1
             [] x.op = "lit" -> IF Is64(x.t) THEN 12 ELSE IF x.n < 0 THEN 13 ELSE 15
             [] OTHER -> BinPrec(x.op)

(* a number's token: #form,n,e, written out by the harness *)
NumTok(x) == "#" \o ToString(x.f) \o "," \o (IF x.t = "bool" THEN "b" ELSE IF IsF(x.t) THEN "f" ELSE "i") \o ","
                 \o ToString(x.n) \o "," \o ToString(x.e)
UnTok(o) == CASE o = "u-" -> "-" [] o = "u+" -> "+" [] o = "u~" -> "~" [] o = "!" -> "!"
RECURSIVE Text(_)
In(x, wrap) == IF wrap THEN <<"(">> \o Text(x) \o <<")">> ELSE Text(x)
Core(x) ==
    CASE x.op = "value" -> <<"value">>
      [] x.op = "lit"   -> IF Is64(x.t) THEN <<"(", x.t, ")", NumTok(x)>> ELSE <<NumTok(x)>>
      [] x.op = "cast"  -> <<"(", x.t, ")">> \o In(x.a[1], Prec(x.a[1]) < 12)
      [] x.op \in {"u-", "u+", "u~", "!"} -> <<UnTok(x.op)>> \o In(x.a[1], Prec(x.a[1]) < 13)
      [] x.op = "?:"    -> In(x.a[1], Prec(x.a[1]) = 1) \o <<"?">> \o In(x.a[2], Prec(x.a[2]) = 1) \o <<":">> \o In(x.a[3], Prec(x.a[3]) = 1)
      [] OTHER          -> In(x.a[1], Prec(x.a[1]) < BinPrec(x.op)) \o <<x.op>> \o In(x.a[2], Prec(x.a[2]) <= BinPrec(x.op))
Text(x) == IF x.p THEN <<"(">> \o Core(x) \o <<")">> ELSE Core(x)

(* What the text says: <<operator, own text, operands>> *)
TypeNames == {Types[i] : i \in DOMAIN Types}
Ops == {"**", "*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"}
RECURSIVE Parse(_, _, _), More(_, _, _, _)
Parse(ts, i, min) ==
    IF ts[i] = "(" /\ ts[i+1] \in TypeNames
      THEN With(Parse(ts, i + 3, 12), LAMBDA b : More(ts, <<"cast", ts[i+1], <<b[1]>>>>, b[2], min))
    ELSE IF ts[i] = "("
      THEN With(Parse(ts, i + 1, 1), LAMBDA b : More(ts, b[1], b[2] + 1, min))
    ELSE IF ts[i] \in {"-", "+", "~", "!"}
      THEN With(Parse(ts, i + 1, 13), LAMBDA b : More(ts, <<"unary", ts[i], <<b[1]>>>>, b[2], min))
    ELSE More(ts, <<"leaf", ts[i], <<>>>>, i + 1, min)
More(ts, l, i, min) ==
    IF i > Len(ts) THEN <<l, i>>
    ELSE IF ts[i] \in Ops /\ BinPrec(ts[i]) >= min
      THEN With(Parse(ts, i + 1, BinPrec(ts[i]) + 1), LAMBDA b : More(ts, <<"binary", ts[i], <<l, b[1]>>>>, b[2], min))
    ELSE IF ts[i] = "?" /\ min <= 1
      THEN With(Parse(ts, i + 1, 1), LAMBDA m :
           With(Parse(ts, m[2] + 1, 2), LAMBDA b : More(ts, <<"ternary", "?:", <<l, m[1], b[1]>>>>, b[2], min)))
    ELSE <<l, i>>

RECURSIVE Shape(_)
Shape(x) ==
    LET sub == [i \in DOMAIN x.a |-> Shape(x.a[i])] IN
    CASE x.op = "value" -> <<"leaf", "value", <<>>>>
      [] x.op = "lit"   -> IF Is64(x.t) THEN <<"cast", x.t, << <<"leaf", NumTok(x), <<>>>> >> >> ELSE <<"leaf", NumTok(x), <<>>>>
      [] x.op = "cast"  -> <<"cast", x.t, sub>>
      [] x.op \in {"u-", "u+", "u~", "!"} -> <<"unary", UnTok(x.op), sub>>
      [] x.op = "?:"    -> <<"ternary", "?:", sub>>
      [] OTHER          -> <<"binary", x.op, sub>>

-----------------------------------------------------------------------------
(* A struct: fields 1 and 3 plain, field 2 with accessors *)

NACC == 6
Skip == Lit("bool", 0, 0)
DrawAcc(vt) ==
    With(Pick(Types), LAMBDA mt :
    With(Pick(<<"get", "set", "both", "both">>), LAMBDA k :
    With(IF k = "set" THEN Skip ELSE DrawTop(mt, vt), LAMBDA g :
    With(IF k = "get" THEN Skip ELSE DrawTop(vt, mt), LAMBDA s :
      [kind |-> k, mt |-> mt, g |-> g, s |-> s,
       gt |-> TLCEval(Text(g)), st |-> TLCEval(Text(s))]))))
RECURSIVE DrawAccs(_, _)
DrawAccs(vt, n) == IF n = 0 THEN <<>> ELSE With(DrawAcc(vt), LAMBDA a : TLCEval(<<a>> \o DrawAccs(vt, n - 1)))

CandI == {0, 1, 2, 3, 4, 5, 7, 8, 10, 13, 50, 100, 127, -1, -2, -3, -7, -50, -128, 128, 200, 255, 256, 1000, 4095, 30000, -32768, 65535, 100000, 1000003, -70001}
CandF == {Num(0, 0), Num(1, 0), Num(-1, 0), Num(5, -1), Num(-15, -2), Num(25, 2), Num(1, -3), Num(2469, -1), Num(-1, -10), Num(7, 0), Num(3, 4), Num(1, 1)}
Cands(t) == IF IsF(t) THEN CandF ELSE {Num(n, 0) : n \in {c \in CandI : c >= Lo(t) /\ c <= Hi(t)}}

Init == ft = <<>> /\ accs = <<>> /\ look = 0 /\ fields = <<>> /\ log = <<>> /\ step = 0

Setup == /\ step = 0
         /\ \E a \in {Pick(Types)} : \E m \in {Pick(Types)} : \E z \in {Pick(Types)} : ft' = <<a, m, z>>
         /\ accs' = TLCEval(DrawAccs(ft'[2], NACC))
         /\ \E z \in {RandomElement(0..999)} : look' = z
         /\ fields' = <<Num(0, 0), Num(0, 0), Num(0, 0)>>
         /\ log' = <<>> /\ step' = 1

Entry(op, i, a, r, j, fs) == [op |-> op, i |-> i, an |-> a.n, ae |-> a.e, rn |-> r.n, re |-> r.e, j |-> j, st |-> fs]
Did(op, i, a, r, j, fs) == fields' = fs /\ log' = Append(log, Entry(op, i, a, r, j, fs))

Getters == {i \in DOMAIN accs : accs[i].kind # "set"}
Setters == {i \in DOMAIN accs : accs[i].kind # "get"}
GetOk(i, v) == Def(Result(accs[i].g, v))
SetOk(i, v) == Def(Result(accs[i].s, v))

Raw == \E f \in {IF step <= 3 THEN step ELSE Pick(<<1, 2, 2, 2, 2, 3>>)} :
       \E i \in {IF Getters = {} THEN 0 ELSE RandomElement(Getters)} :
       \E S \in {IF f = 2 /\ i # 0 THEN {v \in Cands(ft[2]) : GetOk(i, v)} ELSE {}} :
       \E v \in {RandomElement(IF S = {} THEN Cands(ft[f]) ELSE S)} :
          Did("raw", f, v, v, TRUE, [fields EXCEPT ![f] = v])
Get(i) == \E r \in {Result(accs[i].g, fields[2])} : Did("get", i, Num(0, 0), r, r.j, fields)
Set(i) == \E S \in {{v \in Cands(accs[i].mt) : SetOk(i, v)}} :
          IF S = {} THEN Raw
          ELSE \E v \in {RandomElement(S)} :
               \E r \in {Result(accs[i].s, v)} : Did("set", i, v, r, r.j, [fields EXCEPT ![2] = Num(r.n, r.e)])

Act == IF step <= 3 THEN Raw
       ELSE \E what \in {Pick(<<"raw", "get", "get", "get", "set", "set">>)} :
            \E G \in {{i \in Getters : GetOk(i, fields[2])}} :
              CASE what = "get" /\ G # {} -> \E i \in {RandomElement(G)} : Get(i)
                [] what = "set" /\ Setters # {} -> \E i \in {RandomElement(Setters)} : Set(i)
                [] OTHER -> Raw

Step == /\ step \in 1..STEPS
        /\ Act
        /\ step' = step + 1 /\ UNCHANGED <<ft, accs, look>>

Shown == [ft |-> ft, look |-> look, log |-> log,
          accs |-> [i \in DOMAIN accs |-> [kind |-> accs[i].kind, mt |-> accs[i].mt, gt |-> accs[i].gt, st |-> accs[i].st]]]
Save == /\ step = STEPS + 1
        /\ Serialize(ToJson(Shown) \o "\n", OUT,
                     [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
        /\ step' = step + 1
        /\ UNCHANGED <<ft, accs, look, fields, log>>

Next == Setup \/ Step \/ Save
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Checked in every state *)

InType(t, v) == IF IsF(t) THEN Exact(v) = v ELSE v.e = 0 /\ v.n >= Lo(t) /\ v.n <= Hi(t)
FieldsInType == step > 0 => \A i \in 1..3 : InType(ft[i], fields[i])
(* the text of an expression denotes it *)
TextDenotes ==
    step = 1 => \A i \in DOMAIN accs :
      /\ accs[i].kind # "set" => Parse(accs[i].gt, 1, 1) = <<Shape(accs[i].g), Len(accs[i].gt) + 1>>
      /\ accs[i].kind # "get" => Parse(accs[i].st, 1, 1) = <<Shape(accs[i].s), Len(accs[i].st) + 1>>
ResultsInType ==
    \A k \in DOMAIN log : CASE log[k].op = "get" -> InType(accs[log[k].i].mt, Num(log[k].rn, log[k].re))
                            [] log[k].op = "set" -> InType(ft[2], Num(log[k].rn, log[k].re))
                            [] OTHER -> TRUE
(* accessors never change another field, getters none *)
OthersKept == [][(step > 3 /\ step <= STEPS) =>
                 LET e == log'[Len(log')] IN
                 \A f \in 1..3 : (fields'[f] # fields[f]) => (e.op = "raw" /\ e.i = f) \/ (e.op = "set" /\ f = 2)]_vars
=============================================================================
