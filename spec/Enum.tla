---------------------------------- MODULE Enum -----------------------------------
(* Documents for every element type of the vocabulary: the element alone, with    *)
(* each attribute in each notation, with each flag and each kind of child, in      *)
(* each place it may stand.  The specification checks that writing and reading     *)
(* them loses nothing; the documents are then given to the real parser, saved,     *)
(* loaded, split and appended.  Besides, documents with lists of many lengths for  *)
(* every type that has a list of children.                                         *)
EXTENDS Steps, Json, IOUtils
CONSTANTS Emit, Lengths    \* Lengths of lists, a set of sets of lengths
VARIABLE ty

IsEl(k) == k[4] \in {"o", "oa", "v"}
Edges(T) == {<<Vocab[T].k[i][1], Vocab[T].k[i][3]>> : i \in {j \in DOMAIN Vocab[T].k : IsEl(Vocab[T].k[j])}}
            \cup {<<Vocab[T].l[i][1], Vocab[T].l[i][2]>> : i \in DOMAIN Vocab[T].l}
(* for every type the shortest way to it from the body, as a sequence of tags *)
Grow(P) ==
  LET new == UNION {{e[2] : e \in Edges(T)} : T \in DOMAIN P} \ DOMAIN P
      way(U) == LET S == {<<T, e>> \in UNION {{T} \X Edges(T) : T \in DOMAIN P} : e[2] = U}
                    s == CHOOSE s \in S : TRUE
                IN Append(P[s[1]], s[2][1])
  IN [T \in DOMAIN P \cup new |-> IF T \in DOMAIN P THEN P[T] ELSE way(T)]
RECURSIVE Fix(_)
Fix(P) == LET Q == Grow(P) IN IF DOMAIN Q = DOMAIN P THEN P ELSE Fix(Q)
Ways == Fix([T \in {"Body"} |-> << >>])

Ints == <<"0", "1", "-7", "+3", "0042", "12.7", "65536", "914400", "2147483648">>
(* the text of wp:posOffset is an xsd:int *)
TextInts == SelectSeq(Ints, LAMBDA s : s # "12.7")
Vals(kind) == CASE kind = "i" -> Ints
                [] kind \in {"b", "b1"} -> <<"1", "0", "true", "false", "on", "off">>
                [] OTHER -> <<"x", " a  b ", "<&>'", "0">>
Dflt(kind) == CASE kind = "i" -> "5" [] kind \in {"b", "b1"} -> "1" [] OTHER -> "v"
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, << >>, ss)
(* the elements of a type: attributes, then children that are flags or numbers *)
Few(T, tag) ==
  LET v == Vocab[T] IN
  << XEl(tag, << >>, << >>), XEl(tag, [i \in DOMAIN v.a |-> <<v.a[i][1], IF v.a[i][1] = "r:embed" THEN "i" ELSE Dflt(v.a[i][3])>>], << >>) >>
Many(T, tag) ==
  LET v == Vocab[T]
      ks == SelectSeq(v.k, LAMBDA k : ~IsEl(k))
      kid(k) == CASE k[4] = "f" -> <<XEl(k[1], << >>, << >>)>>
                  [] k[4] = "fo" -> <<XEl(k[1], << >>, << >>)>> \o [i \in 1..6 |-> XEl(k[1], << <<"w:val", Vals("b")[i]>> >>, << >>)]
                  [] k[4] = "n" -> [i \in DOMAIN TextInts |-> XEl(k[1], << >>, <<XTxt(TextInts[i])>>)]
                  [] OTHER -> <<XEl(k[1], << >>, <<XTxt(" q ")>>)>>
      list == [i \in DOMAIN v.l |-> XEl(v.l[i][1], << >>, << >>)]
  IN Few(T, tag)
     \o Flat([i \in DOMAIN v.a |-> [j \in DOMAIN Vals(v.a[i][3]) |-> XEl(tag, << <<v.a[i][1], Vals(v.a[i][3])[j]>> >>, << >>)]])
     \o Flat([i \in DOMAIN ks |-> LET s == kid(ks[i]) IN [j \in DOMAIN s |-> XEl(tag, << >>, <<s[j]>>)]])
     \o (IF v.txt THEN [i \in 1..4 |-> XEl(tag, << >>, <<XTxt(<<"t", " t ", "<&]]>", "a b">>[i])>>)] ELSE << >>)
     \* all children in each rotation of their order
     \o [i \in DOMAIN list |-> XEl(tag, << >>, SubSeq(list, i, Len(list)) \o SubSeq(list, 1, i - 1))]
     \* all optional children at once, in vocabulary order and reversed
     \o LET all == [i \in DOMAIN v.k |-> XEl(v.k[i][1], << >>, IF v.k[i][4] \in {"s", "n"} THEN <<XTxt("3")>> ELSE << >>)]
        IN IF v.k = << >> THEN << >> ELSE << XEl(tag, << >>, all), XEl(tag, << >>, Reverse(all)) >>
Inside(way, x) == FoldLeft(LAMBDA acc, i : XEl(way[Len(way) + 1 - i], << >>, <<acc>>), x, [i \in 1..Len(way) |-> i])
Items(T) ==
  LET w == Ways[T]
      ms == Many(T, w[Len(w)])
      main == [i \in DOMAIN ms |-> Inside(Front0(w), ms[i])]
      other == {<<P, e>> \in UNION {{P} \X Edges(P) : P \in DOMAIN Ways} : e[2] = T}
      os == SetToSeq(other)
  IN main \o Flat([i \in DOMAIN os |-> LET fs == Few(T, os[i][2][1]) IN [j \in DOMAIN fs |-> Inside(Ways[os[i][1]], fs[j])]])
DocOf(T) == XEl("w:document", << >>, << XEl("w:body", << >>, Items(T)) >>)

Call(op, d, p, x, q) == [op |-> op, d |-> d, p |-> p, x |-> x, q |-> q]
Calls(T) ==
  << Call("Parse", "d1", << >>, << >>, [xml |-> DocOf(T), rels |-> << Rel("x", RelLink, "u1", "External"), Rel("v", RelLink, "u2", "External"), Rel("i", RelImage, "media/a.png", "") >>,
                                        media |-> [k \in {"a.png"} |-> "A"], parts |-> << >>]),
     Call("Strings", "d1", << >>, << >>, EmptyF),
     Call("Save", "d1", << >>, <<"load">>, EmptyF),
     Call("Strings", "d2", << >>, << >>, EmptyF),
     Call("New", "d3", << >>, << >>, EmptyF),
     Call("Append", "d3", << >>, << >>, [src |-> "d2"]),
     Call("Save", "d3", << >>, <<"load">>, EmptyF),
     Call("Split", "d1", << >>, << >>, [seps |-> [i \in 1..4 |-> i \in {2, 4}]]) >>

(* ------------------------------------------------------------------ long lists -- *)
HasList(T) == Vocab[T].l # << >>
Txt(tag, i) == XEl(tag, << >>, <<XTxt(Str(i))>>)
Frame0(i) ==
  LET in == CASE i % 3 = 0 -> XEl("pic:pic", << >>, <<XEl("pic:blipFill", << >>, <<XEl("a:blip", << <<"r:embed", "i">> >>, << >>)>>)>>)
              [] i % 3 = 1 -> XEl("wps:wsp", << >>, << >>)
              [] OTHER -> XEl("wpg:wgp", << >>, << >>)
  IN XEl(IF i % 2 = 0 THEN "wp:inline" ELSE "wp:anchor", << >>,
         << XEl("wp:docPr", << <<"id", Str(i)>>, <<"name", "n">> >>, << >>), XEl("a:graphic", << >>, <<XEl("a:graphicData", << >>, <<in>>)>>) >>)
Member(tag, i, plain) ==
  CASE tag = "w:t" -> Txt(tag, i)
    [] tag = "w:r" -> XEl(tag, << >>, (IF plain \/ i % 3 = 0 THEN << >> ELSE <<XEl("w:rPr", << >>, <<XEl("w:b", << >>, << >>)>>)>>) \o <<Txt("w:t", i)>>)
    [] tag = "w:hyperlink" -> XEl(tag, << <<"r:id", IF i % 2 = 0 THEN "x" ELSE "v">> >>, <<XEl("w:r", << >>, <<Txt("w:t", i)>>)>>)
    [] tag = "w:drawing" -> XEl(tag, << >>, <<Frame0(i)>>)
    [] tag = "w:p" -> XEl(tag, << >>, <<XEl("w:r", << >>, <<Txt("w:t", i)>>)>>)
    [] tag = "w:tr" -> XEl(tag, << >>, <<XEl("w:tc", << >>, << >>)>>)
    [] tag = "w:gridCol" -> XEl(tag, << <<"w:w", Str(i)>> >>, << >>)
    [] tag = "w:tab" -> XEl(tag, << <<"w:pos", Str(i)>> >>, << >>)
    [] OTHER -> XEl(tag, << >>, << >>)
(* k: 0 for members of all kinds in turn, else all of the k-th kind *)
Members(T, k, n) ==
  LET l == Vocab[T].l IN
  [i \in 1..n |-> Member(l[IF k = 0 THEN 1 + (i % Len(l)) ELSE k][1], i, k # 0)]
(* the innermost element is the list itself *)
Long(T, k, n) == LET w == Ways[T] IN Inside(Front0(w), XEl(w[Len(w)], << >>, Members(T, k, n)))
LongDoc(T, k, ns) ==
  XEl("w:document", << >>, << XEl("w:body", << >>,
     IF T = "Body" THEN Members(T, k, ns[1]) ELSE [i \in DOMAIN ns |-> Long(T, k, ns[i])]) >>)
LongCalls(x) ==
  LET c == Calls("Text")[1]
      n == Len(x.c[1].c) IN
  << [c EXCEPT !.q.xml = x],
     Call("Strings", "d1", << >>, << >>, EmptyF),
     Call("Merges", "d1", << >>, <<"never", "same", "all">>, EmptyF),
     Call("Save", "d1", << >>, <<"load">>, EmptyF),
     Call("New", "d3", << >>, << >>, EmptyF),
     Call("Append", "d3", << >>, << >>, [src |-> "d2"]),
     Call("Append", "d3", << >>, << >>, [src |-> "d3"]),
     Call("Save", "d3", << >>, <<"load">>, EmptyF),
     Call("Split", "d1", << >>, << >>, [seps |-> [i \in 1..n |-> i \in {1 + n \div 2, n}]]),
     Call("Body.Drop", "d1", << >>, <<"Shape">>, EmptyF),
     Call("Keeps", "d2", << >>, <<"Run", "Text", "Tab", "Drawing">>, EmptyF),
     Call("Body.Keep", "d2", << >>, <<"Paragraph">>, EmptyF),
     Call("Drops", "d3", << >>, <<"Group", "Shape", "ShapeAndCanvas", "Canvas", "ShapeAndCanvasAndGroup", "NilPicture", "Group">>, EmptyF),
     Call("Strings", "d3", << >>, << >>, EmptyF),
     Call("Body.Drop", "d3", << >>, <<"NilPicture">>, EmptyF),
     Call("Body.Drop", "d4", << >>, <<"ShapeAndCanvasAndGroup">>, EmptyF),
     Call("MergeSelfs", "d4", << >>, <<"all">>, EmptyF),
     Call("Strings", "d4", << >>, << >>, EmptyF) >>
Kinds0(T) == 0..Len(Vocab[T].l)

Alone == {[t |-> T, k |-> -1, n |-> << >>] : T \in DOMAIN Ways \ {"Body"}}
Longs == {[t |-> T, k |-> k, n |-> ns] : T \in {U \in DOMAIN Ways \ {"Body"} : HasList(U)}, k \in 0..4, ns \in {SetToSortSeq(S, LAMBDA x, y : x < y) : S \in Lengths}}
         \cup {[t |-> "Body", k |-> k, n |-> <<m>>] : k \in 0..4, m \in UNION Lengths}
DocFor(c) == IF c.k = -1 THEN DocOf(c.t) ELSE LongDoc(c.t, c.k, c.n)
Init == ty \in Alone \cup {c \in Longs : c.k \in Kinds0(c.t) /\ (c.k = 0 => Len(Vocab[c.t].l) > 1)}
Next == UNCHANGED ty /\ FALSE
Spec == Init /\ [][Next]_ty
View0 == ty
(* reading what is written gives back what was read *)
ReadWriteRead == LET b == ReadDocument(DocFor(ty)) IN b # << >> /\ ReadDocument(WriteDocument(b)) = b
ASSUME DOMAIN Vocab \ {"Flag"} \subseteq DOMAIN Ways
Emitted == Emit => PrintT("SCRIPT " \o ToJson([calls |-> IF ty.k = -1 THEN Calls(ty.t) ELSE LongCalls(DocFor(ty))]))
==================================================================================
