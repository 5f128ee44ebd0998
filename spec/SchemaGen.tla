------------------------------ MODULE SchemaGen ------------------------------
(***************************************************************************)
(* Generators of well-formed schemas and of values for them.               *)
(*                                                                         *)
(* Every operator that draws takes a parameter, so that TLC evaluates it   *)
(* at each use and not once at start-up; drawn values are bound with With. *)
(***************************************************************************)
EXTENDS Wire

Pick(seq) == seq[RandomElement(1..Len(seq))]
Chance(p) == RandomElement(1..100) <= p
BoolBit(b) == IF b THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Field constructors *)

F0 == [kind |-> "n", k |-> "uint", tw |-> 8, ref |-> 0, len |-> 0, w |-> 8,
       big |-> FALSE, cv |-> <<>>]

VoidF(w)              == [F0 EXCEPT !.kind = "v", !.k = "void", !.tw = 0, !.w = w]
NumF(k, tw, w, big)   == [F0 EXCEPT !.k = k, !.tw = tw, !.w = w, !.big = big]
EnumF(sch, e, big)    == [F0 EXCEPT !.k = "enum", !.ref = e, !.tw = sch.enums[e].w,
                                    !.w = sch.enums[e].w, !.big = big]
ConstF(k, tw, w, big, cv) == [F0 EXCEPT !.kind = "c", !.k = k, !.tw = tw, !.w = w,
                                    !.big = big, !.cv = cv]
StrF                  == [F0 EXCEPT !.k = "str", !.tw = 0, !.w = 0]
BytF                  == [F0 EXCEPT !.k = "byt", !.tw = 0, !.w = 0]
StructF(s)            == [F0 EXCEPT !.k = "struct", !.tw = 0, !.w = 0, !.ref = s]
EmbedF(s)             == [F0 EXCEPT !.kind = "e", !.k = "struct", !.tw = 0, !.w = 0, !.ref = s]
Arr(f, n)             == [f EXCEPT !.len = n]

LeafBits(ls) == SumFixed(ls, Len(ls))
FieldBits(sch, f) ==
    (IF f.k = "struct" THEN With(StructLeaves(sch, f.ref), LeafBits) ELSE f.w) * Max2(f.len, 1)

-----------------------------------------------------------------------------
(* Values *)

RndBits(n) == TLCEval([i \in 1..n |-> RandomElement({0, 1})])

(* w: the declared width, around which the interesting integers lie *)
IntVal(tw, w) ==
    With(RandomElement(1..w), LAMBDA p : With(RandomElement(1..10), LAMBDA c :
      TLCEval(CASE c = 1 -> [i \in 1..tw |-> 1]
                [] c = 2 -> [i \in 1..tw |-> 0]
                [] c = 3 -> [i \in 1..tw |-> BoolBit(i = p)]
                [] c = 4 -> [i \in 1..tw |-> BoolBit(i # p)]
                [] c = 5 -> [i \in 1..tw |-> BoolBit(i = w)]        \* most negative
                [] c = 6 -> [i \in 1..tw |-> BoolBit(i < w)]        \* most positive
                [] OTHER -> RndBits(tw))))

FracBits(tw) == IF tw = 32 THEN 23 ELSE 52
(* never a NaN nor an infinity: the lowest exponent bit stays 0 *)
FloatVal(tw) ==
    With(RandomElement(1..6), LAMBDA c :
      TLCEval(CASE c = 1 -> [i \in 1..tw |-> 0]
                [] c = 2 -> [i \in 1..tw |-> BoolBit(i = tw)]       \* -0.0
                [] c = 3 -> [i \in 1..tw |-> IF i = FracBits(tw) + 1 THEN 0 ELSE 1]
                [] OTHER -> [RndBits(tw) EXCEPT ![FracBits(tw) + 1] = 0]))
BoolVal(tw) == With(RandomElement({0, 1}), LAMBDA b : TLCEval([i \in 1..tw |-> IF i = 1 THEN b ELSE 0]))

Snippets == << <<97>>, <<90>>, <<32>>, <<48>>, <<126>>, <<1>>, <<127>>, <<34>>, <<92>>,
               <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<206, 169>> >>
RECURSIVE StrOf(_)
StrOf(n) == IF n = 0 THEN <<>> ELSE TLCEval(Pick(Snippets) \o StrOf(n - 1))
StrVal(long) == With(RandomElement(1..20), LAMBDA n :
    IF n <= 3 THEN <<>> ELSE IF n = 20 /\ long > 0 THEN StrOf(IF long > 1 THEN 300 ELSE 70) ELSE With(RandomElement(1..5), StrOf))
BytLens(long) == IF long > 1 THEN << 0, 1, 2, 0, 3, 9, 1, 0, 5, 2, 40, 0, 1, 2, 130, 2, 7, 300, 1, 0, 1, 2, 0, 3, 9, 1, 0, RandomElement({16383, 16384, 16400}) >>
                 ELSE IF long > 0 THEN << 0, 0, 1, 2, 3, 5, 8, 126, 127, 128, 129, 255, 256, 300 >>
                 ELSE << 0, 0, 1, 2, 3, 5, 8 >>
BytOf(n) == TLCEval([i \in 1..n |-> RandomElement(0..255)])
BytVal(long) == With(Pick(BytLens(long)), BytOf)

LeafVal(sch, lf, long) ==
    CASE lf.k \in {"uint", "int"} -> IntVal(lf.tw, lf.w)
      [] lf.k = "bool"  -> BoolVal(lf.tw)
      [] lf.k = "float" -> FloatVal(lf.tw)
      [] lf.k = "enum"  -> Pick(sch.enums[lf.ref].vals)
      [] lf.k = "str"   -> StrVal(long)
      [] lf.k = "byt"   -> BytVal(long)

RndVals(sch, leaves, long) ==
    With(ValueLeaves(leaves), LAMBDA vl :
        TLCEval([i \in 1..Len(vl) |-> TLCEval(LeafVal(sch, vl[i], long))]))

-----------------------------------------------------------------------------
(* Drawn enums *)

DrawVal(w) == TLCEval(CASE Chance(25) -> [i \in 1..w |-> 1]
                        [] Chance(25) -> [i \in 1..w |-> 0]
                        [] OTHER -> RndBits(w))
RECURSIVE DrawVals(_, _, _)
DrawVals(w, n, acc) ==
    IF n = 0 THEN acc
    ELSE With(DrawVal(w), LAMBDA v :
            DrawVals(w, n - 1, IF v \in Range(acc) THEN acc ELSE Append(acc, v)))
DrawEnum(maxw) ==
    With(RandomElement(1..maxw), LAMBDA w : With(RandomElement(1..5), LAMBDA n :
        TLCEval([w |-> w, vals |-> DrawVals(w, n, <<>>)])))

-----------------------------------------------------------------------------
(* Drawn numeric fields *)

Widths == << 8, 16, 32, 64 >>
DrawW(tw) == IF Chance(20) THEN tw ELSE RandomElement(1..tw)
OfKind(k, tw, big) == With(DrawW(tw), LAMBDA w : NumF(k, tw, w, big))

DrawNum(sch, p) ==
    With(RandomElement(1..100), LAMBDA r : With(Chance(p.big), LAMBDA big :
      CASE r <= p.enum /\ Len(sch.enums) > 0 ->
             With(RandomElement(1..Len(sch.enums)), LAMBDA e : EnumF(sch, e, big))
        [] r <= p.enum + p.float -> With(Pick(<<32, 64>>), LAMBDA ft : OfKind("float", ft, big))
        [] r <= p.enum + p.float + p.bool -> IF p.bool1 THEN NumF("bool", 8, 1, big) ELSE OfKind("bool", 8, big)
        [] OTHER -> With(Pick(<<"uint", "int">>), LAMBDA k : With(Pick(Widths), LAMBDA tw : OfKind(k, tw, big)))))

(* a constant in range of its declared width; an integer literal is at most
   2^63 - 1, so a uint64 constant has its top bit clear, and an int64
   constant that is negative is at least -(2^63 - 1) *)
InRange(k, tw, w, v) ==
    TLCEval([i \in 1..tw |-> IF k = "uint" /\ i = 64 THEN 0
                            ELSE IF k = "int" /\ w = 64 /\ i = 1 /\ v[64] = 1 THEN 1
                            ELSE IF i <= w THEN v[i] ELSE IF k = "int" THEN v[w] ELSE 0])
DrawConstOf(k, tw, w, big) ==
    With(CASE k \in {"uint", "int"} -> IntVal(tw, w)
           [] k = "bool" -> BoolVal(tw)
           [] k = "float" -> FloatVal(tw), LAMBDA v :
      ConstF(k, tw, w, big, InRange(k, tw, w, v)))
DrawConst(p) ==
    With(RandomElement(1..100), LAMBDA r : With(Chance(p.big), LAMBDA big :
      CASE r <= p.float -> With(Pick(<<32, 64>>), LAMBDA ft : DrawConstOf("float", ft, ft, big))
        [] r <= p.float + p.bool -> With(DrawW(8), LAMBDA w : DrawConstOf("bool", 8, w, big))
        [] OTHER -> With(Pick(<<"uint", "int">>), LAMBDA k : With(Pick(Widths), LAMBDA tw :
                      With(DrawW(tw), LAMBDA w : DrawConstOf(k, tw, w, big))))))

(* n bits (1..7) of something *)
Filler(p, n) ==
    With(RandomElement(1..100), LAMBDA r :
      CASE r <= p.void -> VoidF(n)
        [] r <= p.void + p.const -> DrawConstOf("uint", 8, n, FALSE)
        [] OTHER -> With(Chance(p.big), LAMBDA big : NumF("uint", 8, n, big)))

-----------------------------------------------------------------------------
(* Random compositions *)

Align(sch, p, acc, pos) == IF pos % 8 = 0 THEN acc ELSE Append(acc, Filler(p, 8 - (pos % 8)))

NLeaves(sch, s) == Len(ValueLeaves(StructLeaves(sch, s)))
(* Does the struct hold, itself or embedded, a field that must be byte-aligned? *)
RECURSIVE HasAligned(_, _)
HasAligned(sch, s) == \E f \in Range(sch.structs[s].fields) :
    \/ f.kind = "n" /\ f.k \in {"str", "byt", "struct"}
    \/ f.kind = "e" /\ HasAligned(sch, f.ref)
MaybeArr(p, f, n) == IF Chance(p.arr) THEN Arr(f, n) ELSE f

(* Draws one field, as [f, al]: al if it has to start on a byte *)
DrawField(sch, p, used) ==
    With(RandomElement(1..100), LAMBDA r : With(Pick(p.lens), LAMBDA len :
    With({i \in 1..Len(sch.structs) : i \notin used}, LAMBDA free :
      CASE r <= p.void -> [f |-> With(RandomElement(1..18), VoidF), al |-> FALSE]
        [] r <= p.void + p.const -> [f |-> DrawConst(p), al |-> FALSE]
        [] r <= p.void + p.const + p.embed /\ free # {} ->
             With(RandomElement(free), LAMBDA s : [f |-> EmbedF(s), al |-> HasAligned(sch, s)])
        [] r <= p.void + p.const + p.embed + p.struct /\ Len(sch.structs) > 0 ->
             With(IF Chance(p.last) THEN Len(sch.structs) ELSE RandomElement(1..Len(sch.structs)), LAMBDA s :
               [f |-> IF NLeaves(sch, s) <= 8 THEN MaybeArr(p, StructF(s), Min2(len, p.dlen)) ELSE StructF(s), al |-> TRUE])
        [] r <= p.void + p.const + p.embed + p.struct + p.dyn ->
             With(IF Chance(50) THEN StrF ELSE BytF, LAMBDA f : [f |-> MaybeArr(p, f, Min2(len, p.dlen)), al |-> TRUE])
        [] OTHER -> With(DrawNum(sch, p), LAMBDA f : [f |-> MaybeArr(p, f, len), al |-> FALSE]))))

RECURSIVE EmbedClosure(_, _)
(* the structs whose names and fields embedding s brings in *)
EmbedClosure(sch, s) ==
    {s} \cup UNION {EmbedClosure(sch, f.ref) : f \in {g \in Range(sch.structs[s].fields) : g.kind = "e"}}

Unclash(sch, d, used) ==
    IF d.f.kind = "e" /\ EmbedClosure(sch, d.f.ref) \cap used # {} THEN [f |-> StructF(d.f.ref), al |-> TRUE] ELSE d

RECURSIVE DrawFields(_, _, _, _, _, _)
DrawFields(sch, p, n, acc, pos, used) ==
    IF n = 0 THEN Align(sch, p, acc, pos)
    ELSE With(Unclash(sch, DrawField(sch, p, used), used), LAMBDA d :
         With(Append(IF d.al THEN Align(sch, p, acc, pos) ELSE acc, d.f), LAMBDA a :
           DrawFields(sch, p, n - 1, a, (IF d.al THEN 0 ELSE pos) + FieldBits(sch, d.f),
                      IF d.f.kind = "e" THEN used \cup EmbedClosure(sch, d.f.ref) ELSE used)))

(* at least one field that is not void or constant, so that the struct has content *)
DrawStruct(sch, p) ==
    With(RandomElement(p.nmin..p.nmax), LAMBDA n : With(Chance(30), LAMBDA inl :
    With(DrawFields(sch, p, n, <<>>, 0, {}), LAMBDA fs :
      [fields |-> IF \A i \in DOMAIN fs : fs[i].kind \in {"v", "c"}
                  THEN Append(fs, NumF("uint", 8, 8, FALSE)) ELSE fs,
       inl |-> inl])))

RECURSIVE DrawStructs(_, _, _)
DrawStructs(sch, p, n) ==
    IF n = 0 THEN sch
    ELSE With(DrawStruct(sch, p), LAMBDA s : DrawStructs([sch EXCEPT !.structs = Append(@, s)], p, n - 1))

RECURSIVE DrawEnums(_, _)
DrawEnums(n, maxw) == IF n = 0 THEN <<>> ELSE TLCEval(<<DrawEnum(maxw)>> \o DrawEnums(n - 1, maxw))

DrawSchema(p) ==
    With(RandomElement(1..2), LAMBDA ne : With(RandomElement(p.smin..p.structs), LAMBDA ns :
    With(IF p.enum > 0 THEN DrawEnums(ne, p.enumw) ELSE <<>>, LAMBDA es :
    With(DrawStructs([enums |-> es, structs |-> <<>>, root |-> 0], p, ns), LAMBDA s :
      [s EXCEPT !.root = ns]))))

-----------------------------------------------------------------------------
(* A schema spread over files 1..n.  A file imports only files with smaller
   numbers; a definition may use those of its own file and of every file that
   is imported directly or indirectly.                                      *)

MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RefsOf(sch, s, what) == {f.ref : f \in {g \in Range(sch.structs[s].fields) : (g.k = what)}}

(* Homes of the structs, in order: no lower than what the struct uses.  A
   spread schema tends to put each next to what it uses, so that chains of
   files arise in which an outer one knows an inner one only indirectly.   *)
RECURSIVE DrawHomes(_, _, _, _, _)
DrawHomes(sch, eh, acc, n, spread) ==
    IF Len(acc) = Len(sch.structs) THEN acc
    ELSE LET s == Len(acc) + 1
             low == MaxOf({1} \cup {eh[e] : e \in RefsOf(sch, s, "enum")} \cup {acc[x] : x \in RefsOf(sch, s, "struct")})
         IN With(IF spread THEN (IF Chance(70) THEN Min2(low + 1, n) ELSE low)
                 ELSE IF Chance(55) THEN low ELSE RandomElement(low..n),
                 LAMBDA h : DrawHomes(sch, eh, Append(acc, h), n, spread))

(* files visible from those in S, given what each imports *)
RECURSIVE Visible(_, _)
Visible(imp, S) == LET T == S \cup UNION {imp[f] : f \in S} IN IF T = S THEN S ELSE Visible(imp, T)

Needs(sch, eh, sh, f) ==
    UNION {{eh[e] : e \in RefsOf(sch, s, "enum")} \cup {sh[x] : x \in RefsOf(sch, s, "struct")} : s \in {x \in DOMAIN sh : sh[x] = f}} \ {f}

(* some imports that need not be there (in a spread schema often that of the
   file before, so that much is only seen through several others), and what
   they do not bring into sight                                            *)
RECURSIVE DrawImports(_, _, _, _, _, _)
DrawImports(sch, eh, sh, imp, n, spread) ==
    IF Len(imp) = n THEN imp
    ELSE LET f == Len(imp) + 1 IN
         With(TLCEval(IF spread /\ f > 1 /\ Chance(60) THEN {f - 1}
                      ELSE {g \in 1..(f-1) : Chance(IF spread THEN 12 ELSE 35)}), LAMBDA extra :
           DrawImports(sch, eh, sh, Append(imp, extra \cup (Needs(sch, eh, sh, f) \ Visible(imp, extra))), n, spread))

(* look: numbers from which the binding chooses names, options and places *)
DrawSplit(sch, sprd) ==
    With(Chance(sprd), LAMBDA spread :
    With(RandomElement(IF spread THEN 3..6 ELSE 2..4), LAMBDA n :
    With(TLCEval([e \in DOMAIN sch.enums |-> RandomElement(1..(IF spread THEN 2 ELSE n))]), LAMBDA eh :
    With(DrawHomes(sch, eh, <<>>, n, spread), LAMBDA sh :
    With(DrawImports(sch, eh, sh, <<>>, n, spread), LAMBDA imp :
    With(TLCEval([f \in 1..n |-> RandomElement(0..1023)]), LAMBDA look :
      [n |-> n, enums |-> eh, structs |-> sh, imps |-> imp, look |-> look]))))))

(* every use is in sight *)
InSight(sch, sp) ==
    \A s \in DOMAIN sch.structs :
       (Needs(sch, sp.enums, sp.structs, sp.structs[s])) \subseteq Visible(sp.imps, {sp.structs[s]})
(* and files import in one direction only *)
Downward(sp) == \A f \in 1..sp.n : \A g \in sp.imps[f] : g < f

-----------------------------------------------------------------------------
(* The grid: every (type, width, bit offset, byte order) of a scalar, a
   constant or an array, between real neighbour fields.  Cells are numbered;
   cell n is one point. *)

TypeWidths == [i \in 1..120 |-> IF i <= 8 THEN <<8, i>> ELSE IF i <= 24 THEN <<16, i-8>>
                                ELSE IF i <= 56 THEN <<32, i-24>> ELSE <<64, i-56>>]
(* other numeric kinds on the grid: bool, float32 and float64 at full and at
   narrowed width *)
OtherKinds == << <<"bool",8,1>>, <<"bool",8,2>>, <<"bool",8,5>>, <<"bool",8,8>>,
                 <<"float",32,32>>, <<"float",32,8>>, <<"float",32,15>>, <<"float",32,24>>,
                 <<"float",64,64>>, <<"float",64,16>>, <<"float",64,32>>, <<"float",64,51>> >>
GridKinds == 252
CellKind(c) == IF c < 120 THEN <<"uint", TypeWidths[c+1][1], TypeWidths[c+1][2]>>
               ELSE IF c < 240 THEN <<"int", TypeWidths[c-119][1], TypeWidths[c-119][2]>>
               ELSE OtherKinds[c-239]
GridCells == GridKinds * 16
CellOf(n) == [kind |-> CellKind(n % GridKinds),
              off  |-> (n \div GridKinds) % 8,
              big  |-> ((n \div GridKinds) \div 8) % 2 = 1]

Gap(p, n) == IF n = 0 THEN <<>> ELSE
             IF p.gapvoid > 0 /\ Chance(p.gapvoid) THEN <<VoidF(n)>>
             ELSE With(Chance(30), LAMBDA big : <<NumF("uint", 8, n, big)>>)

CellField(p, c) ==
    LET k == c.kind[1]  tw == c.kind[2]  w == c.kind[3]
    IN CASE p.family = "gridconst" -> DrawConstOf(k, tw, IF k = "float" THEN tw ELSE w, c.big)
         [] p.family = "gridarr" -> With(Pick(p.lens), LAMBDA n : Arr(NumF(k, tw, w, c.big), n))
         [] OTHER -> NumF(k, tw, w, c.big)

RECURSIVE GridFields(_, _, _, _)
GridFields(p, cells, acc, pos) ==
    IF cells = <<>> THEN acc \o Gap(p, (8 - (pos % 8)) % 8)
    ELSE With(CellOf(cells[1]), LAMBDA c : With((c.off - pos + 8 * 1024) % 8, LAMBDA g :
         With(CellField(p, c), LAMBDA f : With(acc \o Gap(p, g) \o <<f>>, LAMBDA a :
           GridFields(p, Tail(cells), a, pos + g + f.w * Max2(f.len, 1))))))

GridSchema(p, cells) ==
    With(GridFields(p, cells, <<>>, 0), LAMBDA fs :
    With(IF \A i \in DOMAIN fs : fs[i].kind # "n" THEN fs \o <<NumF("uint", 8, 8, FALSE)>> ELSE fs, LAMBDA gs :
       [enums |-> <<>>, structs |-> <<[fields |-> gs, inl |-> FALSE]>>, root |-> 1]))
=============================================================================
