-------------------------------- MODULE GoDocx --------------------------------
(* The documents of go-docx and what every exported operation does to them.     *)
(*                                                                              *)
(* A document is [body, rels, media, ...]:                                      *)
(*   body  : sequence of element trees (see OoxmlCodec)                         *)
(*   rels  : sequence of [id, type, target, mode]                               *)
(*   media : function from media names to (digests of) their bytes              *)
(* Fresh names (relationship ids, drawing ids, media names) are parameters of   *)
(* the operations here: the model checker chooses them (MC), the trace checker  *)
(* takes the observed ones and demands that they are fresh (Trace).             *)
EXTENDS OoxmlCodec

RelImage == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image"
RelLink  == "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink"
Rel(id, type, target, mode) == [id |-> id, type |-> type, target |-> target, mode |-> mode]

Body(items) == N("Body", EmptyF, EmptyF, items)
Range0(s) == {s[i] : i \in DOMAIN s}

(* ----------------------------------------------------------------- paths --- *)
(* a path is a sequence of steps [i |-> list position, f |-> ""] or             *)
(* [i |-> 0, f |-> field]                                                       *)
StepI(i) == [i |-> i, f |-> ""]
StepF(f) == [i |-> 0, f |-> f]
RECURSIVE NodeAt(_, _)
NodeAt(n, p) ==
  IF p = << >> THEN n
  ELSE IF p[1].i > 0
       THEN IF p[1].i <= Len(n.l) THEN NodeAt(n.l[p[1].i], Tail(p)) ELSE Nil
       ELSE NodeAt(Kid(n, p[1].f), Tail(p))
RECURSIVE PutAt(_, _, _)
PutAt(n, p, x) ==
  IF p = << >> THEN x
  ELSE IF p[1].i > 0
       THEN IF p[1].i <= Len(n.l) THEN [n EXCEPT !.l[p[1].i] = PutAt(n.l[p[1].i], Tail(p), x)] ELSE n
       ELSE SetKid(n, p[1].f, PutAt(Kid(n, p[1].f), Tail(p), x))
AppendTo(n, x) == [n EXCEPT !.l = Append(n.l, x)]
LastOf(s) == IF s = << >> THEN Nil ELSE s[Len(s)]
GetBody(d, p) == NodeAt(Body(d.body), p)
PutBody(items, p, x) == PutAt(Body(items), p, x).l

(* ---------------------------------------------------------- references ----- *)
RelIdx(rels, id) == LET I == {i \in DOMAIN rels : rels[i].id = id} IN IF I = {} THEN 0 ELSE Min(I)
Resolves(rels, id) == \E i \in DOMAIN rels : rels[i].id = id
TargetOf(rels, id) == rels[RelIdx(rels, id)].target
RelIds(rels) == {rels[i].id : i \in DOMAIN rels}
IdsUnique(rels) == \A i, j \in DOMAIN rels : rels[i].id = rels[j].id => i = j

RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET k == IndexOf(s, c) IN
  IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o SplitAt(Drop(s, k), c)
Front0(s) == IF s = << >> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
Segments(path) ==
  FoldLeft(LAMBDA acc, x : IF x \in {"", "."} THEN acc ELSE IF x = ".." THEN Front0(acc) ELSE Append(acc, x),
           << >>, SplitAt(path, "/"))
JoinSlash(s) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o "/" \o x, "", s)
(* the part a relationship of word/document.xml leads to *)
PartOf(target) ==
  JoinSlash(Segments(IF target # "" /\ Ch(target, 1) = "/" THEN target ELSE "word/" \o target))
MediaPart(name) == "word/media/" \o name
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* the digest of the image a picture refers to, "" if there is none *)
ImageOf(d, embed) ==
  IF embed = "" \/ ~Resolves(d.rels, embed) THEN ""
  ELSE LET part == PartOf(TargetOf(d.rels, embed)) IN
       IF ~HasPrefix(part, "word/media/") THEN ""
       ELSE LET name == Drop(part, Len("word/media/")) IN
            IF name \in DOMAIN d.media THEN d.media[name] ELSE ""

AnchorOnly(n) == At(n, "Anchor") # "" /\ At(n, "ID") = At(n, "Anchor")

(* ----------------------------------------------------------------- views --- *)
(* An element with its references resolved, i.e. what it means.  mode:          *)
(*  "same"  drawing ids are kept                                                *)
(*  "copy"  drawing ids and the automatic names of pictures are left out        *)
GData(g) == Kid(Kid(g, "Graphic"), "GraphicData")
IsPic(g) == Has(GData(g), "Pic")
RECURSIVE View(_, _, _)
View(d, mode, n) ==
  LET a == CASE n.T = "Hyperlink" /\ ~AnchorOnly(n) ->
                  SetAt(n, "ID", IF Resolves(d.rels, At(n, "ID"))
                                 THEN "-> " \o TargetOf(d.rels, At(n, "ID"))
                                 ELSE At(n, "Anchor")).a
             [] n.T = "ABlip" -> SetAt(n, "Embed", ImageOf(d, At(n, "Embed"))).a
             [] n.T = "WPDocPr" /\ mode = "copy" -> SetAt(n, "ID", "").a
             [] OTHER -> n.a
      drop == IF mode = "copy" /\ n.T \in {"WPInline", "WPAnchor"} /\ IsPic(n) THEN {"DocPr"} ELSE {}
      auto == IF mode = "copy" /\ n.T = "PICNonVisualPicProperties" THEN {"NonVisualDrawingProperties"} ELSE {}
      o == [k \in DOMAIN n.o \ drop |->
              IF k \in auto THEN Leaf("auto")
              ELSE View(d, mode, n.o[k])]
  IN N(n.T, a, o, [i \in DOMAIN n.l |-> View(d, mode, n.l[i])])
ViewSeq(d, mode, s) == [i \in DOMAIN s |-> View(d, mode, s[i])]

(* all nodes of a type in a tree, depth first *)
RECURSIVE AllOf(_, _)
AllOf(T, n) ==
  (IF n.T = T THEN <<n>> ELSE << >>)
  \o FoldLeft(LAMBDA acc, k : acc \o AllOf(T, n.o[k]), << >>, SetToSeq(DOMAIN n.o))
  \o FoldLeft(LAMBDA acc, c : acc \o AllOf(T, c), << >>, n.l)
AllIn(T, items) == FoldLeft(LAMBDA acc, c : acc \o AllOf(T, c), << >>, items)
DrawingIds(items) == LET s == AllIn("WPDocPr", items) IN [i \in DOMAIN s |-> At(s[i], "ID")]
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
(* the pictures of the body that lead nowhere, and links likewise *)
Dangling(d) ==
  {n \in Range0(AllIn("Hyperlink", d.body)) : ~AnchorOnly(n) /\ At(n, "ID") # "" /\ ~Resolves(d.rels, At(n, "ID"))}
  \cup {n \in Range0(AllIn("ABlip", d.body)) : At(n, "Embed") # "" /\ ImageOf(d, At(n, "Embed")) = ""}

(* --------------------------------------------------------------- building --- *)
Str(n) == ToString(n)
EmptyRun == N("Run", EmptyF, [RunProperties |-> Leaf("RunProperties")], << >>)
TextNode(s, space) == N("Text", Attrs(<< <<"Text", s>>, <<"XMLSpace", space>> >>), EmptyF, << >>)
WSpace == {" ", "\t", "\n", "\r", "\f"}
EdgeSpace(s) == s # "" /\ (Ch(s, 1) \in WSpace \/ Ch(s, Len(s)) \in WSpace)
(* the children that spell a text: tab and newline characters become elements *)
Spell(s) ==
  LET flush(acc) == IF acc.cur = "" THEN acc.out
                    ELSE Append(acc.out, TextNode(acc.cur, IF EdgeSpace(acc.cur) THEN "preserve" ELSE ""))
      r == FoldLeft(LAMBDA acc, i :
             LET c == Ch(s, i) IN
             IF c = "\n" THEN [out |-> Append(flush(acc), Leaf("BarterRabbet")), cur |-> ""]
             ELSE IF c = "\t" THEN [out |-> Append(flush(acc), Leaf("Tab")), cur |-> ""]
             ELSE [acc EXCEPT !.cur = acc.cur \o c],
             [out |-> << >>, cur |-> ""], [i \in 1..Len(s) |-> i])
  IN flush(r)
TextRun(s) == [EmptyRun EXCEPT !.l = Spell(s)]
NewParagraph == Leaf("Paragraph")
LinkNode(id, text) ==
  N("Hyperlink", Attrs(<< <<"ID", id>> >>),
    [Run |-> N("Run", Attrs(<< <<"InstrText", text>> >>),
               [RunProperties |-> N("RunProperties", EmptyF, [RunStyle |-> N("RunStyle", [Val |-> "a3"], EmptyF, << >>)], << >>)], << >>)],
    << >>)
Picture(embed, id, name, w, h) ==
  N("Picture", EmptyF,
    [NonVisualPicProperties |-> N("PICNonVisualPicProperties", EmptyF,
        [NonVisualDrawingProperties |-> N("NonVisualProperties", Attrs(<< <<"ID", id>>, <<"Name", name>> >>), EmptyF, << >>),
         CNvPicPr |-> Leaf("PicCNvPicPr")], << >>),
     BlipFill |-> N("PICBlipFill", EmptyF,
        [Blip |-> N("ABlip", Attrs(<< <<"Embed", embed>>, <<"Cstate", "print">> >>), EmptyF, << >>), Stretch |-> Leaf("AStretch")], << >>),
     SpPr |-> N("PICSpPr", EmptyF,
        [Xfrm |-> N("AXfrm", EmptyF, [Off |-> Leaf("AOff"), Ext |-> N("AExt", Attrs(<< <<"CX", w>>, <<"CY", h>> >>), EmptyF, << >>)], << >>),
         PrstGeom |-> N("APrstGeom", [Prst |-> "rect"], EmptyF, << >>)], << >>)], << >>)
InlinePicture(embed, docid, id, name, w, h) ==
  N("Drawing", EmptyF,
    [Inline |-> N("WPInline", EmptyF,
      [Extent |-> N("WPExtent", Attrs(<< <<"CX", w>>, <<"CY", h>> >>), EmptyF, << >>),
       EffectExtent |-> Leaf("WPEffectExtent"),
       DocPr |-> N("WPDocPr", Attrs(<< <<"ID", docid>>, <<"Name", name>> >>), EmptyF, << >>),
       CNvGraphicFramePr |-> N("WPCNvGraphicFramePr", EmptyF, [Locks |-> N("AGraphicFrameLocks", [NoChangeAspect |-> "1"], EmptyF, << >>)], << >>),
       Graphic |-> N("AGraphic", EmptyF,
         [GraphicData |-> N("AGraphicData", [URI |-> "http://schemas.openxmlformats.org/drawingml/2006/picture"],
            [Pic |-> Picture(embed, id, name, w, h)], << >>)], << >>)], << >>)], << >>)

(* the size of an added picture: page width, or half of it unless clearly wide *)
PageWidth == 5274310
PicWidth(w, h)  == IF 10 * w > 12 * h THEN PageWidth ELSE PageWidth \div 2
PicHeight(w, h) == IF 10 * w > 12 * h THEN (PageWidth * h) \div w ELSE ((PageWidth * h) \div w) \div 2

(* ----------------------------------------------------------------- setters -- *)
KidOr(n, f, T) == IF Has(n, f) THEN n.o[f] ELSE Leaf(T)
ValLeaf(T, v) == N(T, Attrs(<< <<"Val", v>> >>), EmptyF, << >>)
SetProp(n, props, T, f, c) == SetKid(n, props, SetKid(KidOr(n, props, T), f, c))
SetR(n, f, c) == SetProp(n, "RunProperties", "RunProperties", f, c)
SetP(n, f, c) == SetProp(n, "Properties", "ParagraphProperties", f, c)
FontNode(x) == N("RunFonts", Attrs(<< <<"ASCII", x[1]>>, <<"EastAsia", x[2]>>, <<"HAnsi", x[3]>>, <<"Hint", x[4]>> >>), EmptyF, << >>)
ShadeNode(x) == N("Shade", Attrs(<< <<"Val", x[1]>>, <<"Color", x[2]>>, <<"Fill", x[3]>> >>), EmptyF, << >>)
NumProps(n) == KidOr(KidOr(n, "Properties", "ParagraphProperties"), "RunProperties", "RunProperties")
SetSize(n, w, h) ==
  LET sz(e) == SetAt(SetAt(e, "CX", NormInt(w)), "CY", NormInt(h))
      n1 == IF Has(n, "Extent") THEN SetKid(n, "Extent", sz(n.o.Extent)) ELSE n
      p  == <<StepF("Graphic"), StepF("GraphicData"), StepF("Pic"), StepF("SpPr")>>
      e  == p \o <<StepF("Xfrm"), StepF("Ext")>>
  IN IF NodeAt(n, p).T = "nil" THEN n1 ELSE PutAt(n1, e, sz(NodeAt(n, e)))
(* op: operation, x: its string arguments, n: the element it is called on *)
SetterResult(op, x, n) ==
  CASE op = "Run.Color"     -> SetR(n, "Color", ValLeaf("Color", x[1]))
    [] op = "Run.Size"      -> SetR(n, "Size", ValLeaf("Size", x[1]))
    [] op = "Run.SizeCs"    -> SetR(n, "SizeCs", ValLeaf("SizeCs", x[1]))
    [] op = "Run.Shade"     -> SetR(n, "Shade", ShadeNode(x))
    [] op = "Run.Spacing"   -> SetR(n, "Spacing", N("Spacing", Attrs(<< <<"Line", NormInt(x[1])>> >>), EmptyF, << >>))
    [] op = "Run.Bold"      -> SetR(n, "Bold", Leaf("Bold"))
    [] op = "Run.Italic"    -> SetR(n, "Italic", Leaf("Italic"))
    [] op = "Run.Underline" -> SetR(n, "Underline", ValLeaf("Underline", x[1]))
    [] op = "Run.Highlight" -> SetR(n, "Highlight", ValLeaf("Highlight", x[1]))
    [] op = "Run.Strike"    -> SetR(n, "Strike", ValLeaf("Strike", x[1]))
    [] op = "Run.Font"      -> SetR(n, "Fonts", FontNode(x))
    [] op = "Run.AddTab"    -> AppendTo(n, Leaf("Tab"))
    [] op = "Par.Justification" -> SetP(n, "Justification", ValLeaf("Justification", x[1]))
    [] op = "Par.Style"     -> SetP(n, "Style", ValLeaf("Style", x[1]))
    [] op = "Par.NumPr"     -> SetP(SetP(n, "RunProperties", NumProps(n)), "NumProperties",
                                    N("NumProperties", EmptyF, [NumID |-> ValLeaf("NumID", x[1]), Ilvl |-> ValLeaf("Ilevel", x[2])], << >>))
    [] op = "Par.NumFont"   -> SetP(n, "RunProperties", SetKid(NumProps(n), "Fonts", FontNode(x)))
    [] op = "Par.NumSize"   -> SetP(n, "RunProperties", SetKid(NumProps(n), "Size", ValLeaf("Size", x[1])))
    [] op = "Table.Justification" -> SetProp(n, "TableProperties", "WTableProperties", "Justification", ValLeaf("Justification", x[1]))
    [] op = "Row.Justification"   -> SetProp(n, "TableRowProperties", "WTableRowProperties", "Justification", ValLeaf("Justification", x[1]))
    [] op = "Cell.Shade"    -> SetProp(n, "TableCellProperties", "WTableCellProperties", "Shade", ShadeNode(x))
    [] op = "Inline.Size"   -> SetSize(n, x[1], x[2])
    [] op = "Anchor.Size"   -> SetSize(n, x[1], x[2])
    [] op = "Poke"          -> SetAt(n, x[1], x[2])
    [] OTHER -> n
Setters == {"Run.Color", "Run.Size", "Run.SizeCs", "Run.Shade", "Run.Spacing", "Run.Bold", "Run.Italic", "Run.Underline",
            "Run.Highlight", "Run.Strike", "Run.Font", "Run.AddTab", "Par.Justification", "Par.Style", "Par.NumPr", "Par.NumFont",
            "Par.NumSize", "Table.Justification", "Row.Justification", "Cell.Shade", "Inline.Size", "Anchor.Size", "Poke"}

(* ------------------------------------------------------------ keep and drop -- *)
Keep(l, types) == SelectSeq(l, LAMBDA c : c.T \in types)
Frames(dr) == (IF Has(dr, "Inline") THEN {dr.o.Inline} ELSE {}) \cup (IF Has(dr, "Anchor") THEN {dr.o.Anchor} ELSE {})
KindParts(kind) ==
  CASE kind = "Shape" -> {"Shape"} [] kind = "Canvas" -> {"Canvas"} [] kind = "Group" -> {"Group"}
    [] kind = "ShapeAndCanvas" -> {"Shape", "Canvas"} [] kind = "ShapeAndCanvasAndGroup" -> {"Shape", "Canvas", "Group"}
    [] OTHER -> {}
Kinds == {"Shape", "Canvas", "Group", "ShapeAndCanvas", "ShapeAndCanvasAndGroup", "NilPicture"}
IsKind(dr, kind) ==
  IF kind = "NilPicture" THEN Frames(dr) = {} \/ \E g \in Frames(dr) : ~IsPic(g)
  ELSE \E g \in Frames(dr) : \E k \in KindParts(kind) : Has(GData(g), k)
DropRun(r, kind) == [r EXCEPT !.l = SelectSeq(r.l, LAMBDA c : ~(c.T = "Drawing" /\ IsKind(c, kind)))]
DropPar(p, kind) == [p EXCEPT !.l = [i \in DOMAIN p.l |-> IF p.l[i].T = "Run" THEN DropRun(p.l[i], kind) ELSE p.l[i]]]
MapL(n, Op(_)) == [n EXCEPT !.l = [i \in DOMAIN n.l |-> Op(n.l[i])]]
DropBody(items, kind) ==
  IF kind \notin Kinds THEN items
  ELSE [i \in DOMAIN items |->
    CASE items[i].T = "Paragraph" -> DropPar(items[i], kind)
      [] items[i].T = "Table" ->
           MapL(items[i], LAMBDA r : MapL(r, LAMBDA c : MapL(c, LAMBDA p : IF p.T = "Paragraph" THEN DropPar(p, kind) ELSE p)))
      [] OTHER -> items[i]]

(* ----------------------------------------------------------------- merging --- *)
Props(r) == Kid(r, "RunProperties")
(* rule: [k |-> "all" | "never" | "same" | "of" | "bold", f |-> fields] *)
CanMerge(rule, r1, r2) ==
  CASE rule.k = "all" -> TRUE
    [] rule.k = "same" -> Props(r1) = Props(r2)
    [] rule.k = "of" -> IF Has(r1, "RunProperties") # Has(r2, "RunProperties") THEN FALSE
                        ELSE \A f \in Range0(rule.f) : Kid(Props(r1), f) = Kid(Props(r2), f)
    [] rule.k = "bold" -> Has(Props(r1), "Bold") /\ Has(Props(r2), "Bold")
    [] OTHER -> FALSE
JoinText(t1, t2) ==
  LET sp == IF At(t2, "XMLSpace") # "" /\ At(t1, "XMLSpace") # "preserve" THEN At(t2, "XMLSpace") ELSE At(t1, "XMLSpace")
  IN SetAt(SetAt(t1, "Text", At(t1, "Text") \o At(t2, "Text")), "XMLSpace", sp)
(* texts side by side become one, empty ones vanish *)
JoinTexts(l) ==
  FoldLeft(LAMBDA acc, c :
     IF c.T # "Text" THEN Append(acc, c)
     ELSE IF At(c, "Text") = "" THEN acc
     ELSE IF LastOf(acc).T = "Text" THEN Append(Front0(acc), JoinText(LastOf(acc), c))
     ELSE Append(acc, c), << >>, l)
MergePar(p, rule) ==
  [p EXCEPT !.l =
    FoldLeft(LAMBDA acc, c :
      IF c.T # "Run" THEN Append(acc, c)
      ELSE LET r == [c EXCEPT !.l = JoinTexts(c.l)]
               q == LastOf(acc)
           IN IF q.T = "Run" /\ At(q, "InstrText") = "" /\ At(r, "InstrText") = "" /\ CanMerge(rule, q, r)
              THEN Append(Front0(acc), [q EXCEPT !.l = JoinTexts(q.l \o r.l)])
              ELSE Append(acc, r), << >>, p.l)]

(* --------------------------------------------------------------- rendering --- *)
FrameName(g) ==
  IF IsPic(g)
  THEN LET pic == GData(g).o.Pic IN
       IF Has(g, "DocPr") THEN At(g.o.DocPr, "Name")
       ELSE IF Has(pic, "NonVisualPicProperties") THEN At(Kid(pic.o.NonVisualPicProperties, "NonVisualDrawingProperties"), "Name")
       ELSE IF Has(pic, "BlipFill") THEN At(Kid(pic.o.BlipFill, "Blip"), "Embed") ELSE "nil"
  ELSE IF Has(GData(g), "Shape")
  THEN LET sp == GData(g).o.Shape IN
       IF Has(g, "DocPr") THEN At(g.o.DocPr, "Name")
       ELSE IF Has(sp, "CNvPr") THEN At(sp.o.CNvPr, "Name")
       ELSE IF Has(sp, "SpPr") THEN At(Kid(sp.o.SpPr, "PrstGeom"), "Prst") ELSE "nil"
  ELSE IF Has(g, "DocPr") THEN At(g.o.DocPr, "Name") ELSE "nil"
RenderFrame(d, kind, g) ==
  IF IsPic(g)
  THEN "![" \o kind \o "im " \o FrameName(g) \o "]("
       \o (IF Has(GData(g).o.Pic, "BlipFill") THEN ImageOf(d, At(Kid(GData(g).o.Pic.o.BlipFill, "Blip"), "Embed")) ELSE "") \o ")"
  ELSE IF Has(GData(g), "Shape")
  THEN "![" \o kind \o "sp " \o FrameName(g) \o "](" \o At(Kid(Kid(GData(g).o.Shape, "SpPr"), "PrstGeom"), "Prst") \o ")"
  ELSE IF Has(GData(g), "Canvas") THEN "![" \o kind \o "cv " \o FrameName(g) \o "]()"
  ELSE "![" \o kind \o "?](unknown)"
RenderChild(d, c) ==
  CASE c.T = "Text" -> At(c, "Text")
    [] c.T = "Tab" -> "\t"
    [] c.T = "BarterRabbet" -> "\n"
    [] c.T = "Drawing" -> IF Has(c, "Inline") THEN RenderFrame(d, "inln", c.o.Inline)
                          ELSE IF Has(c, "Anchor") THEN RenderFrame(d, "anch", c.o.Anchor) ELSE ""
    [] OTHER -> ""
RenderRun(d, r) == FoldLeft(LAMBDA acc, c : acc \o RenderChild(d, c), "", r.l)
RenderPar(d, p) ==
  FoldLeft(LAMBDA acc, c :
    CASE c.T = "Run" -> acc \o RenderRun(d, c)
      [] c.T = "Hyperlink" ->
           LET r == Kid(c, "Run")
               t == RenderRun(d, r)
           IN acc \o "[" \o (IF t = "" THEN At(r, "InstrText") ELSE t) \o "]("
                  \o (IF Resolves(d.rels, At(c, "ID")) THEN TargetOf(d.rels, At(c, "ID")) ELSE At(c, "ID")) \o ")"
      [] OTHER -> acc, "", p.l)
RenderCell(d, c) ==
  IF c.l # << >> /\ c.l[1].l # << >> THEN " " \o RenderPar(d, c.l[1]) \o " |" ELSE "        |"
RenderTable(d, t) ==
  IF t.l = << >> \/ t.l[1].l = << >> THEN ""
  ELSE FoldLeft(LAMBDA acc, r : acc \o "\n|" \o FoldLeft(LAMBDA a, c : a \o RenderCell(d, c), "", r.l),
                FoldLeft(LAMBDA acc, c : acc \o " :----: |", "| ", t.l[1].l), t.l)
(* pictures that cannot be resolved render as some message *)
Renderable(d, n) ==
  \A i \in DOMAIN AllOf("Drawing", n) :
     \A g \in Frames(AllOf("Drawing", n)[i]) :
        IsPic(g) /\ Has(GData(g).o.Pic, "BlipFill") => ImageOf(d, At(Kid(GData(g).o.Pic.o.BlipFill, "Blip"), "Embed")) # ""

(* ------------------------------------------------------- splitting, appending -- *)
(* seps[i]: item i is a paragraph the rule accepts; the pieces as ranges of items *)
Pieces(n, seps) ==
  LET cuts == {i \in 2..n : seps[i]}
      b    == SetToSortSeq({1} \cup cuts, LAMBDA x, y : x < y)
  IN IF n = 0 THEN << >>
     ELSE [k \in DOMAIN b |-> <<b[k], IF k = Len(b) THEN n ELSE b[k + 1] - 1>>]

(* Copying trees into a document: every link and every image gets a relationship *)
(* (and a media name) of its own that nothing in the document uses, every drawing *)
(* an id of its own.  Here the least free names are taken.                        *)
FreshRid(rels) == "rId" \o Str(CHOOSE k \in 1..(Len(rels) + 1) :
                     /\ "rId" \o Str(k) \notin RelIds(rels)
                     /\ \A j \in 1..(k - 1) : "rId" \o Str(j) \in RelIds(rels))
MediaName(k, ext) == "image" \o Str(k) \o "." \o ext
FreshMedia(media, ext) == MediaName(CHOOSE k \in 1..(Cardinality(DOMAIN media) + 1) :
                     /\ MediaName(k, ext) \notin DOMAIN media
                     /\ \A j \in 1..(k - 1) : MediaName(j, ext) \in DOMAIN media, ext)
FreshDid(used) == CHOOSE k \in 1..(Cardinality(used) + 1) : Str(k) \notin used /\ \A j \in 1..(k - 1) : Str(j) \in used
PicName == "pic"
AddRel(d, type, target, mode) == [d EXCEPT !.rels = Append(d.rels, Rel(FreshRid(d.rels), type, target, mode))]
LastRid(d) == d.rels[Len(d.rels)].id
AddImage(d, hash) ==
  LET name == FreshMedia(d.media, "png")
  IN AddRel([d EXCEPT !.media = (name :> hash) @@ d.media], RelImage, "media/" \o name, "")

(* result: [d |-> destination, n |-> copied tree] *)
RECURSIVE Copy(_, _, _)
Copy(dst, src, n) ==
  LET own == CASE n.T = "Hyperlink" /\ ~AnchorOnly(n) ->
                    IF Resolves(src.rels, At(n, "ID"))
                    THEN LET d1 == AddRel(dst, RelLink, TargetOf(src.rels, At(n, "ID")), "External")
                         IN [d |-> d1, n |-> SetAt(n, "ID", LastRid(d1))]
                    ELSE [d |-> dst, n |-> SetAt(n, "ID", At(n, "Anchor"))]
               [] n.T = "ABlip" /\ At(n, "Embed") # "" ->
                    IF ImageOf(src, At(n, "Embed")) # ""
                    THEN LET d1 == AddImage(dst, ImageOf(src, At(n, "Embed")))
                         IN [d |-> d1, n |-> SetAt(n, "Embed", LastRid(d1))]
                    ELSE [d |-> dst, n |-> SetAt(n, "Embed", "")]
               [] n.T = "WPDocPr" ->
                    LET k == FreshDid(dst.used) IN
                    [d |-> [dst EXCEPT !.used = dst.used \cup {Str(k)}], n |-> SetAt(n, "ID", Str(k))]
               [] OTHER -> [d |-> dst, n |-> n]
      ro == FoldLeft(LAMBDA acc, k :
              LET r == Copy(acc.d, src, n.o[k]) IN [d |-> r.d, n |-> SetKid(acc.n, k, r.n)],
              own, SetToSeq(DOMAIN n.o))
  IN FoldLeft(LAMBDA acc, i : LET r == Copy(acc.d, src, n.l[i]) IN [d |-> r.d, n |-> [acc.n EXCEPT !.l[i] = r.n]],
              ro, [i \in DOMAIN n.l |-> i])
CopyItem(dst, src, item) == LET r == Copy(dst, src, item) IN [r.d EXCEPT !.body = Append(r.d.body, r.n)]
AppendDoc(dst, src) == FoldLeft(LAMBDA acc, x : CopyItem(acc, src, x), dst, src.body)
EmptyDoc(keep) == [body |-> << >>, rels |-> keep, media |-> EmptyF, used |-> {}]
OtherRels(d) == SelectSeq(d.rels, LAMBDA r : r.type \notin {RelImage, RelLink})
SplitDoc(d, seps) ==
  LET ps == Pieces(Len(d.body), seps)
  IN [k \in DOMAIN ps |-> FoldLeft(LAMBDA acc, x : CopyItem(acc, d, x), EmptyDoc(OtherRels(d)), SubSeq(d.body, ps[k][1], ps[k][2]))]
===============================================================================
