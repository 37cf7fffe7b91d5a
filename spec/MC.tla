----------------------------------- MODULE MC -----------------------------------
(* The model: several documents that are built, changed, split, appended, saved  *)
(* and loaded again.  TLC explores all sequences of the chosen operations         *)
(*   - every transition has to be acceptable (Steps!FailuresOf),                  *)
(*   - the invariants below have to hold in every state,                          *)
(*   - the explored sequences are written out, with what the documents are in     *)
(*     the end, and are replayed on the real library (harness/script.go).         *)
EXTENDS Steps, Json, IOUtils

CONSTANTS Ops,        \* the operations in play
          Depth,      \* length of the sequences
          MaxDocs, MaxItems, MaxKids,
          Start,      \* "new", "two", "foreign", or documents of one origin: "pieces", "appended", "twins"
          Emit,       \* whether to write the sequences out
          OnlyLong,   \* only the longest ones
          Random      \* choose one transition of few (for simulation)
VARIABLES docs, log, fail,
          pick  \* the operation that comes next, when chosen at random

On(op) == op \in Ops /\ (Random => op = pick)
\* the sets depend on the state, or TLC would choose once for all
Choose == IF Random THEN RandomElement({o \in Ops : log # << >>}) ELSE ""
(* some element, or any when chosen at random *)
Some(S) == IF Random /\ S # {} THEN {RandomElement({x \in S : log # << >>})} ELSE S
X(t, a, c) == XEl(t, a, c)

(* ------------------------------------------------------------- starting points *)
InitRels == << Rel("rId1", "styles", "styles.xml", "") >>
Theme == [k \in {CtPart, "_rels/.rels", "word/styles.xml"} |-> k]
ThemeCt == [d |-> [x \in {"xml", "rels"} |-> x], o |-> [x \in {"/word/document.xml"} |-> "main"]]
NewDoc == [used |-> {}] @@ [Fresh EXCEPT !.rels = InitRels, !.tmpl = Theme, !.ct = ThemeCt, !.valid = TRUE]

(* a file of other software: ids of other forms, a drawing id used twice, pictures *)
(* and links inside a canvas and a table, an unused image, a header               *)
Para(c) == X("w:p", << >>, c)
RunX(c) == X("w:r", << >>, c)
TxtX(s) == X("w:t", << >>, <<XTxt(s)>>)
LinkX(id, s) == X("w:hyperlink", << <<"r:id", id>> >>, <<RunX(<<TxtX(s)>>)>>)
PicX(embed) ==
  X("pic:pic", << >>, <<X("pic:nvPicPr", << >>, <<X("pic:cNvPr", << <<"id", "4">>, <<"name", "p">> >>, << >>), X("pic:cNvPicPr", << >>, << >>)>>),
                        X("pic:blipFill", << >>, <<X("a:blip", << <<"r:embed", embed>> >>, << >>), X("a:stretch", << >>, << >>)>>),
                        X("pic:spPr", << >>, <<X("a:xfrm", << >>, <<X("a:off", << >>, << >>), X("a:ext", << <<"cx", "9">>, <<"cy", "8">> >>, << >>)>>)>>)>>)
InlineX(id, data) ==
  X("w:drawing", << >>, <<X("wp:inline", << >>, <<X("wp:extent", << <<"cx", "9">>, <<"cy", "8">> >>, << >>),
     X("wp:docPr", << <<"id", id>>, <<"name", "x">> >>, << >>),
     X("a:graphic", << >>, <<X("a:graphicData", << <<"uri", "u">> >>, <<data>>)>>)>>)>>)
CanvasX ==
  X("wpc:wpc", << >>, <<PicX("R2"),
     X("wps:wsp", << >>, <<X("wps:spPr", << >>, << >>),
       X("wps:txbx", << >>, <<X("w:txbxContent", << >>, <<Para(<<LinkX("link_1", "u1"), RunX(<<InlineX("1", PicX("R1"))>>)>>)>>)>>)>>)>>)
ForeignXml ==
  X("w:document", << >>, <<X("w:body", << >>, <<
    Para(<<RunX(<<TxtX("a")>>), LinkX("link_1", "u1"), RunX(<<InlineX("1", PicX("R1"))>>)>>),
    Para(<<RunX(<<InlineX("7", CanvasX)>>)>>),
    X("w:tbl", << >>, <<X("w:tr", << >>, <<X("w:tc", << >>, <<Para(<<LinkX("rId9", "u2")>>)>>)>>)>>),
    X("w:sectPr", << >>, << >>) >>)>>)
ForeignRels == << Rel("R1", RelImage, "media/image2.png", ""), Rel("hdr", "header", "header1.xml", ""),
                  Rel("R2", RelImage, "/word/media/B.jpg", ""), Rel("link_1", RelLink, "u1", "External"),
                  Rel("rId9", RelLink, "u2", "External"), Rel("rId2", RelImage, "media/unused.png", "") >>
ForeignMedia == [k \in {"image2.png", "B.jpg", "unused.png"} |-> CASE k = "image2.png" -> "A" [] k = "B.jpg" -> "B" [] OTHER -> "C"]
ForeignParts == [k \in {CtPart, "_rels/.rels", "word/header1.xml"} |-> k]
ForeignDoc ==
  LET body == ReadDocument(ForeignXml) IN
  [used |-> Range0(DrawingIds(body))] @@
  [Fresh EXCEPT !.body = body, !.rels = ForeignRels, !.media = ForeignMedia, !.tmpl = ForeignParts,
                !.ct = [d |-> [x \in {"xml", "rels", "png", "jpg"} |-> x], o |-> [x \in {"/word/document.xml"} |-> "main"]],
                !.valid = TRUE, !.parsed = TRUE]

Call(op, d, p, x, q) == [op |-> op, d |-> d, p |-> p, x |-> x, q |-> q]
NewCalls(d) == << Call("New", d, << >>, << >>, EmptyF), Call("Theme", d, << >>, << >>, EmptyF) >>
ForeignCall(d) == Call("Parse", d, << >>, << >>, [xml |-> ForeignXml, rels |-> ForeignRels, media |-> ForeignMedia, parts |-> <<"word/header1.xml">>])
OnePar(d) == [d EXCEPT !.body = <<NewParagraph>>]
PieceSeps == [i \in DOMAIN ForeignDoc.body |-> i \in {1, 2}]
StartPieces == SplitDoc(ForeignDoc, PieceSeps)
PieceDoc(i) == [used |-> StartPieces[i].used] @@ [Fresh EXCEPT !.body = StartPieces[i].body, !.rels = StartPieces[i].rels, !.media = StartPieces[i].media]
AppendCall(d, src) == Call("Append", d, << >>, << >>, [src |-> src, name |-> PicName])
Init ==
  /\ fail = {}
  /\ pick \in IF Random THEN Ops ELSE {""}
  /\ CASE Start = "new" -> /\ docs = ("d1" :> OnePar(NewDoc))
                           /\ log = NewCalls("d1") \o << Call("AddParagraph", "d1", << >>, << >>, EmptyF) >>
       [] Start = "two" -> /\ docs = ("d1" :> OnePar(NewDoc)) @@ ("d2" :> OnePar(NewDoc))
                           /\ log = NewCalls("d1") \o NewCalls("d2") \o << Call("AddParagraph", "d1", << >>, << >>, EmptyF), Call("AddParagraph", "d2", << >>, << >>, EmptyF) >>
       [] Start = "pieces" -> /\ docs = ("d1" :> ForeignDoc) @@ ("d2" :> PieceDoc(1)) @@ ("d3" :> PieceDoc(2))
                              /\ log = << ForeignCall("d1"), Call("Split", "d1", << >>, << >>, [seps |-> PieceSeps, name |-> PicName]) >>
       [] Start = "appended" -> /\ docs = ("d1" :> ForeignDoc) @@ [d \in {"d2", "d3"} |-> AppendDoc(OnePar(NewDoc), ForeignDoc)]
                                /\ log = << ForeignCall("d1") >> \o NewCalls("d2") \o NewCalls("d3")
                                          \o << Call("AddParagraph", "d2", << >>, << >>, EmptyF), Call("AddParagraph", "d3", << >>, << >>, EmptyF), AppendCall("d2", "d1"), AppendCall("d3", "d1") >>
       [] Start = "twins" -> /\ docs = [d \in {"d1", "d2"} |-> ForeignDoc]
                             /\ log = << ForeignCall("d1"), ForeignCall("d2") >>
       [] OTHER -> /\ docs = ("d1" :> ForeignDoc) @@ ("d2" :> OnePar(NewDoc))
                   /\ log = << ForeignCall("d1") >> \o NewCalls("d2") \o << Call("AddParagraph", "d2", << >>, << >>, EmptyF) >>
InitLen == CASE Start = "new" -> 3 [] Start = "two" -> 6 [] Start \in {"pieces", "twins"} -> 2 [] Start = "appended" -> 9 [] OTHER -> 4

ModelTok == [k \in {"A", "B", "C", "D"} |-> k]
(* pictures A and D are of the same size *)
PicToks == IF Start = "two" THEN {"A", "D"} ELSE {"A", "B"}

Pars(d) ==
  UNION { CASE d.body[i].T = "Paragraph" -> {<<StepI(i)>>}
            [] d.body[i].T = "Table" ->
                 {<<StepI(i), StepI(r), StepI(c), StepI(k)>> : <<r, c, k>> \in
                    {x \in (1..Len(d.body[i].l)) \X (1..3) \X (1..3) :
                       x[2] \in DOMAIN d.body[i].l[x[1]].l /\ x[3] \in DOMAIN d.body[i].l[x[1]].l[x[2]].l
                       /\ d.body[i].l[x[1]].l[x[2]].l[x[3]].T = "Paragraph"}}
            [] OTHER -> {} : i \in DOMAIN d.body }
OpenPars(d) == {p \in Pars(d) : Len(GetBody(d, p).l) < MaxKids}
RunsOf(d) == UNION {{p \o <<StepI(j)>> : j \in {k \in DOMAIN GetBody(d, p).l : GetBody(d, p).l[k].T = "Run"}} : p \in Pars(d)}
NextName == "d" \o Str(Cardinality(DOMAIN docs) + 1)
Room == Cardinality(DOMAIN docs) < MaxDocs

(* --------------------------------------------------------------- transitions --- *)
OkR == [path |-> << >>]
EvOf(c, r, changed) == [op |-> c.op, d |-> c.d, p |-> c.p, x |-> c.x, q |-> c.q, r |-> r, out |-> "ok", docs |-> [k \in changed |-> TRUE]]
Finish(l, D) ==
  Emit /\ (OnlyLong => Len(l) = InitLen + Depth) => PrintT("SCRIPT " \o ToJson([calls |-> l, want |-> [k \in DOMAIN D |-> ShowDoc(D[k], ModelTok)]]))
Do(c, r, D2) ==
  LET ev == EvOf(c, r, {k \in DOMAIN D2 : k \notin DOMAIN docs \/ D2[k] # docs[k]}) IN
  /\ fail' = FailuresOf(docs, D2, ev)
  /\ docs' = AdoptOf(docs, D2, ev)
  /\ log' = Append(log, c)
  /\ pick' = Choose
  /\ Finish(log', docs')
Change(c, r, d2) == Do(c, r, [docs EXCEPT ![c.d] = d2])
Add(k, d2) == (k :> d2) @@ docs
Read0(c, r) == Do(c, r, docs)

Append1(d, p, n) == [docs[d] EXCEPT !.body = PutBody(docs[d].body, p, AppendTo(GetBody(docs[d], p), n))]
RPath(d, p) == [path |-> p \o <<StepI(Len(GetBody(docs[d], p).l) + 1)>>]

DoNew == On("New") /\ Room /\ Do(Call("New", NextName, << >>, << >>, EmptyF), OkR, Add(NextName, [used |-> {}] @@ [Fresh EXCEPT !.rels = InitRels]))
DoPar(d) == On("AddParagraph") /\ Len(docs[d].body) < MaxItems
  /\ Change(Call("AddParagraph", d, << >>, << >>, EmptyF), RPath(d, << >>), Append1(d, << >>, NewParagraph))
DoText(d, p, s) == On("AddText") /\ Change(Call("AddText", d, p, <<s>>, EmptyF), RPath(d, p), Append1(d, p, TextRun(s)))
DoLink(d, p, u) == On("AddLink") /\
  LET d1 == AddRel(docs[d], RelLink, u, "External")
      n  == LinkNode(LastRid(d1), u)
  IN Change(Call("AddLink", d, p, <<u, u>>, EmptyF), RPath(d, p), [d1 EXCEPT !.body = Append1(d, p, n).body])
Images == [k \in {"A", "B", "D"} |-> IF k = "B" THEN [w |-> 300, h |-> 100] ELSE [w |-> 100, h |-> 100]]
ImgQ(k) == [img |-> TRUE, w |-> Images[k].w, h |-> Images[k].h, md5 |-> k, name |-> PicName]
NextNum(d, name) == IF LastNum(docs[d], name) < 0 THEN Len(docs[d].body) + 50 ELSE LastNum(docs[d], name) + 1
AnchorOf(run) ==
  LET f == run.l[1].o.Inline IN
  [run EXCEPT !.l = <<N("Drawing", EmptyF, [Anchor |-> N("WPAnchor", [LayoutInCell |-> "1", AllowOverlap |-> "1"],
     [SimplePosXY |-> Leaf("WPSimplePos"), PositionH |-> N("WPPositionH", [RelativeFrom |-> "column"], EmptyF, << >>),
      PositionV |-> N("WPPositionV", [RelativeFrom |-> "paragraph"], EmptyF, << >>), WrapNone |-> Flag] @@ f.o, << >>)], << >>)>>]
DoPic(d, p, k, kind) == On("AddPic") /\
  LET d1  == AddImage(docs[d], k)
      did == Str(FreshDid(docs[d].used))
      num == Str(NextNum(d, PicName))
      q   == ImgQ(k)
      run == [EmptyRun EXCEPT !.l = <<InlinePicture(LastRid(d1), did, num, PicName \o " " \o num, Str(PicWidth(q.w, q.h)), Str(PicHeight(q.w, q.h)))>>]
      n   == IF kind = "Inline" THEN run ELSE AnchorOf(run)
  IN Change(Call("AddPic", d, p, <<kind>>, q), RPath(d, p),
            [d1 EXCEPT !.used = d1.used \cup {did}, !.body = Append1(d, p, n).body])
ShapeRun(did, w, h, name, bw, prst) ==
  [EmptyRun EXCEPT !.l = <<N("Drawing", EmptyF, [Inline |-> N("WPInline", EmptyF,
     [Extent |-> N("WPExtent", [CX |-> w, CY |-> h], EmptyF, << >>), EffectExtent |-> Leaf("WPEffectExtent"),
      DocPr |-> N("WPDocPr", [ID |-> did, Name |-> name], EmptyF, << >>),
      CNvGraphicFramePr |-> N("WPCNvGraphicFramePr", EmptyF, [Locks |-> Leaf("AGraphicFrameLocks")], << >>),
      Graphic |-> N("AGraphic", EmptyF, [GraphicData |-> N("AGraphicData", [URI |-> UriShape],
        [Shape |-> N("WordprocessingShape", EmptyF,
           [CNvCnPr |-> N("WPSCNvCnPr", EmptyF, [ConnShapeLocks |-> Flag], << >>),
            SpPr |-> N("ShapeProperties", [BWMode |-> bw],
              [Xfrm |-> N("AXfrm", EmptyF, [Off |-> Leaf("AOff"), Ext |-> N("AExt", [CX |-> w, CY |-> h], EmptyF, << >>)], << >>),
               PrstGeom |-> N("APrstGeom", [Prst |-> prst], EmptyF, << >>), NoFill |-> Flag], << >>),
            BodyPr |-> Leaf("WPSBodyPr")], << >>)], << >>)], << >>)], << >>)], << >>)>>]
DoShape(d, p, kind) == On("AddShape") /\
  LET did == Str(FreshDid(docs[d].used))
      num == Str(NextNum(d, "s"))
      run == ShapeRun(did, "70", "80", "s " \o num, "auto", "line")
      n   == IF kind = "Inline" THEN run ELSE AnchorOf(run)
      d1  == [docs[d] EXCEPT !.used = docs[d].used \cup {did}]
  IN Change(Call("AddShape", d, p, <<kind, "70", "80", "s", "auto", "line">>, [ln |-> Nil]), RPath(d, p),
            [d1 EXCEPT !.body = Append1(d, p, n).body])
Border == N("WTableBorder", [Val |-> "single", Size |-> "4", Color |-> "#000000"], EmptyF, << >>)
AutoCell == N("WTableCell", EmptyF, [TableCellProperties |-> N("WTableCellProperties", EmptyF,
              [TableCellWidth |-> N("WTableCellWidth", [Type |-> "auto"], EmptyF, << >>)], << >>)], << >>)
AutoTable(rows, cols) ==
  N("Table", EmptyF,
    [TableProperties |-> N("WTableProperties", EmptyF,
       [Width |-> N("WTableWidth", [Type |-> "auto"], EmptyF, << >>),
        TableBorders |-> N("WTableBorders", EmptyF, [Top |-> Border, Left |-> Border, Bottom |-> Border, Right |-> Border, InsideH |-> Border, InsideV |-> Border], << >>),
        Look |-> N("WTableLook", [Val |-> "0000"], EmptyF, << >>)], << >>),
     TableGrid |-> Leaf("WTableGrid")],
    [r \in 1..rows |-> N("WTableRow", EmptyF, [TableRowProperties |-> Leaf("WTableRowProperties")], [c \in 1..cols |-> AutoCell])])
DoTable(d) == On("AddTable") /\ Len(docs[d].body) < MaxItems
  /\ Change(Call("AddTable", d, << >>, <<"0">>, [rows |-> 1, cols |-> 2, colors |-> [i \in 1..6 |-> ""]]), RPath(d, << >>) @@ [given |-> EmptyF], Append1(d, << >>, AutoTable(1, 2)))
CellsOf(d) == UNION {{<<StepI(i), StepI(r), StepI(c)>> : r \in DOMAIN docs[d].body[i].l, c \in 1..2} : i \in {j \in DOMAIN docs[d].body : docs[d].body[j].T = "Table"}}
DoCellPar(d) == On("Cell.AddParagraph") /\ \E p \in CellsOf(d) :
  /\ GetBody(docs[d], p).T = "WTableCell" /\ Len(GetBody(docs[d], p).l) < 2
  /\ Change(Call("Cell.AddParagraph", d, p, << >>, EmptyF), RPath(d, p), Append1(d, p, NewParagraph))
DoPage(d) == On("AddPage") /\ Len(docs[d].body) < MaxItems
  /\ Change(Call("AddPage", d, << >>, <<"A4">>, EmptyF), RPath(d, << >>),
            Append1(d, << >>, N("SectPr", EmptyF, [PgSz |-> N("PgSz", PageSize("A4"), EmptyF, << >>)], << >>)))
DoSet(d, p, op, x) == On(op) /\
  Change(Call(op, d, p, x, EmptyF), [path |-> p],
         [docs[d] EXCEPT !.body = PutBody(docs[d].body, p, SetterResult(op, x, GetBody(docs[d], p)))])
Rule(k) == [k |-> k, f |-> IF k = "of" THEN <<"Bold">> ELSE << >>]
DoMerge(d, p, k) == On("Par.MergeSelf") /\
  Change(Call("Par.MergeSelf", d, p, << >>, Rule(k)), OkR,
         [docs[d] EXCEPT !.body = PutBody(docs[d].body, p, MergePar(GetBody(docs[d], p), Rule(k)))])
DoKeep(d, p, op, x) == On(op) /\
  LET n == GetBody(docs[d], p) IN
  Change(Call(op, d, p, x, EmptyF), OkR, [docs[d] EXCEPT !.body = PutBody(docs[d].body, p, [n EXCEPT !.l = Keep(n.l, Range0(x))])])
DoDrop(d, k) == On("Body.Drop") /\ Change(Call("Body.Drop", d, << >>, <<k>>, EmptyF), OkR, [docs[d] EXCEPT !.body = DropBody(docs[d].body, k)])
Seps(d) == {s \in [DOMAIN docs[d].body -> BOOLEAN] : \A i \in DOMAIN s : s[i] => docs[d].body[i].T = "Paragraph"}
DoSplit(d, s) == On("Split") /\
  LET ps == SplitDoc(docs[d], s)
      names == [k \in DOMAIN ps |-> "d" \o Str(Cardinality(DOMAIN docs) + k)]
      D2 == [k \in Range0(names) |-> LET i == CHOOSE i \in DOMAIN names : names[i] = k IN
               [used |-> ps[i].used] @@ [Fresh EXCEPT !.body = ps[i].body, !.rels = ps[i].rels, !.media = ps[i].media]] @@ docs
  IN /\ Cardinality(DOMAIN docs) + Len(ps) <= MaxDocs
     /\ Do(Call("Split", d, << >>, << >>, [seps |-> s, name |-> PicName]), [docs |-> names], D2)
DoAppend(d, s) == On("Append") /\ Len(docs[d].body) + Len(docs[s].body) <= MaxItems
  /\ Change(Call("Append", d, << >>, << >>, [src |-> s, name |-> PicName]), OkR, AppendDoc(docs[d], docs[s]))

(* the package that is written for a document *)
ExtOf(part) == LET i == IndexOf(part, ".") IN IF i = 0 THEN "" ELSE
               CASE HasPrefix(part, "word/media/") -> (IF SubSeq(part, Len(part) - 2, Len(part)) = "jpg" THEN "jpg" ELSE "png")
                 [] OTHER -> IF SubSeq(part, Len(part) - 3, Len(part)) = "rels" THEN "rels" ELSE "xml"
PackageOf(d) ==
  LET parts == DOMAIN d.tmpl \cup OwnParts(d)
      ext == [k \in parts |-> ExtOf(k)]
      need == {ext[MediaPart(m)] : m \in DOMAIN d.media} \ DOMAIN d.ct.d
      ct == IF need = {} \/ CtPart \notin DOMAIN d.tmpl THEN d.ct ELSE [d.ct EXCEPT !.d = [x \in need |-> "image"] @@ d.ct.d]
  IN [zip |-> TRUE, dups |-> << >>, bad |-> << >>, ext |-> ext, ct |-> ct, rels |-> d.rels,
      off |-> IF "_rels/.rels" \in parts THEN <<DocPart>> ELSE << >>,
      doc |-> WriteDocument(d.body),
      parts |-> [k \in parts |-> CASE k = CtPart -> IF ct = d.ct THEN d.tmpl[k] ELSE "extended " \o d.tmpl[k]
                                   [] k \in {DocPart, RelsPart} -> "own"
                                   [] k \in {MediaPart(m) : m \in DOMAIN d.media} -> d.media[Drop(k, Len("word/media/"))]
                                   [] OTHER -> d.tmpl[k]]]
Opened(pk) ==
  LET body == ReadDocument(pk.doc)
      ms == {Drop(k, Len("word/media/")) : k \in {m \in DOMAIN pk.parts : HasPrefix(m, "word/media/")}}
  IN [used |-> Range0(DrawingIds(body))] @@
     [Fresh EXCEPT !.body = body, !.rels = pk.rels, !.media = [m \in ms |-> pk.parts[MediaPart(m)]]]
DoSave(d) ==
  LET pk == PackageOf(docs[d])
      r0 == [n |-> 1, len |-> 1, reload |-> "ok", nd |-> ""]
      c(b) == Call("Save", d, << >>, <<b>>, [pkg |-> pk])
      \* the package itself is not part of the script
      sc(b) == Call("Save", d, << >>, <<b>>, EmptyF)
      D2 == Add(NextName, Opened(pk))
      ev(b, r, D) == EvOf(c(b), r, {k \in DOMAIN D : k \notin DOMAIN docs})
      Go(b, r, D) == /\ fail' = FailuresOf(docs, D, ev(b, r, D))
                     /\ docs' = AdoptOf(docs, D, ev(b, r, D))
                     /\ log' = Append(log, sc(b))
                     /\ pick' = Choose
                     /\ Finish(log', docs')
  IN \/ On("Load") /\ Room /\ Go("load", [r0 EXCEPT !.nd = NextName], D2)
     \/ On("Save") /\ Go("only", r0, docs)
DoString(d, p) == On("Par.String") /\ Renderable(docs[d], GetBody(docs[d], p))
  /\ Read0(Call("Par.String", d, p, << >>, EmptyF), [s |-> RenderPar(docs[d], GetBody(docs[d], p))])

More == Len(log) < InitLen + Depth
Next ==
  /\ More
  /\ \/ DoNew
     \/ Random /\ pick' = Choose /\ UNCHANGED <<docs, log, fail>>
     \/ \E d \in Some(DOMAIN docs) :
          \/ DoPar(d) \/ DoTable(d) \/ DoCellPar(d) \/ DoPage(d) \/ DoSave(d)
          \/ \E s \in Some(Seps(d)) : DoSplit(d, s)
          \/ \E s \in Some(DOMAIN docs) : DoAppend(d, s)
          \/ \E p \in Some(OpenPars(docs[d])) :
               \/ \E s \in {"a", " b\tc\n"} : DoText(d, p, s)
               \/ \E u \in {"u1", "u2"} : DoLink(d, p, u)
               \/ \E k \in PicToks : DoPic(d, p, k, IF k = "A" THEN "Inline" ELSE "Anchor")
               \/ \E k \in {"Inline", "Anchor"} : DoShape(d, p, k)
          \/ \E p \in Some(Pars(docs[d])) :
               \/ \E k \in {"all", "same", "of"} : DoMerge(d, p, k)
               \/ DoSet(d, p, "Par.Justification", <<"center">>)
               \/ DoSet(d, p, "Par.NumPr", <<"1", "2">>)
               \/ DoSet(d, p, "Par.NumSize", <<"9">>)
               \/ \E x \in {<<"Run">>, <<"Hyperlink">>} : DoKeep(d, p, "Par.Keep", x)
               \/ DoString(d, p)
          \/ \E p \in Some(RunsOf(docs[d])) :
               \/ DoSet(d, p, "Run.Bold", << >>) \/ DoSet(d, p, "Run.AddTab", << >>)
               \/ \E x \in {"FF0000", "00FF00"} : DoSet(d, p, "Run.Color", <<x>>)
               \/ DoKeep(d, p, "Run.Keep", <<"Text">>)
          \/ \E x \in {<<"Paragraph">>, <<"Table", "SectPr">>} : DoKeep(d, << >>, "Body.Keep", x)
          \/ \E k \in Kinds : DoDrop(d, k)
vars == <<docs, log, fail, pick>>
Spec == Init /\ [][Next]_vars
View0 == <<docs, fail, Len(log)>>

(* ----------------------------------------------------------------- invariants -- *)
Accepted == fail = {}
NoDangling == \A d \in DOMAIN docs : Dangling(docs[d]) = {}
UniqueRels == \A d \in DOMAIN docs : IdsUnique(docs[d].rels)
\* the parsed start has its own drawing id twice, everything added is fresh
UniqueDrawings == Start \in {"foreign", "pieces", "appended", "twins"} \/ \A d \in DOMAIN docs : Distinct(DrawingIds(docs[d].body))
LinkText(n) == LET t == RenderRun([rels |-> << >>, media |-> EmptyF], n.o.Run) IN IF t = "" THEN At(n.o.Run, "InstrText") ELSE t
LinksTrue == \A d \in DOMAIN docs : \A n \in Range0(AllIn("Hyperlink", docs[d].body)) :
               TargetOf(docs[d].rels, At(n, "ID")) = LinkText(n)
PicsTrue == Start \in {"foreign", "pieces", "appended", "twins"} \/ \A d \in DOMAIN docs :
   \A n \in Range0(AllIn("Picture", docs[d].body)) :
      LET k == ImageOf(docs[d], At(n.o.BlipFill.o.Blip, "Embed"))
      IN k \in DOMAIN Images /\ ExtentIs(n.o.SpPr.o.Xfrm.o.Ext, Str(PicWidth(Images[k].w, Images[k].h)), Str(PicHeight(Images[k].w, Images[k].h)))
RoundTrip == \A d \in DOMAIN docs : ReadDocument(WriteDocument(docs[d].body)) = docs[d].body
ValidPackages == \A d \in DOMAIN docs : docs[d].valid => ValidPkg(PackageOf(docs[d]))
(* the laws of the operations, for all documents reached *)
SplitLaw == \A d \in DOMAIN docs : \A s \in Seps(d) :
   LET ps == SplitDoc(docs[d], s)
   IN /\ FoldLeft(LAMBDA acc, x : acc \o ViewSeq(x, "copy", x.body), << >>, ps) = ViewSeq(docs[d], "copy", docs[d].body)
      /\ \A k \in DOMAIN ps : ps[k].body # << >> /\ IdsUnique(ps[k].rels) /\ Dangling(ps[k]) = {} /\ Distinct(DrawingIds(ps[k].body))
AppendLaw == \A d, e \in DOMAIN docs :
   LET r == AppendDoc(docs[d], docs[e]) IN
   /\ ViewSeq(r, "copy", r.body) = ViewSeq(docs[d], "copy", docs[d].body) \o ViewSeq(docs[e], "copy", docs[e].body)
   /\ SubSeq(r.body, 1, Len(docs[d].body)) = docs[d].body
   /\ IdsUnique(r.rels) /\ Dangling(r) = {}
   /\ \A m \in DOMAIN docs[d].media : r.media[m] = docs[d].media[m]
(* splitting and putting the pieces together again *)
SplitAppendLaw == \A d \in DOMAIN docs : \A s \in Seps(d) :
   LET ps == SplitDoc(docs[d], s)
       r == FoldLeft(LAMBDA acc, x : AppendDoc(acc, x), EmptyDoc(InitRels), ps)
   IN ViewSeq(r, "copy", r.body) = ViewSeq(docs[d], "copy", docs[d].body)
MergeLaw == \A d \in DOMAIN docs : \A p \in Pars(docs[d]) : \A k \in {"all", "same", "of", "never"} :
   LET n == GetBody(docs[d], p)
       m == MergePar(n, Rule(k))
       others(x) == SelectSeq(FoldLeft(LAMBDA acc, c : IF c.T = "Run" THEN acc \o c.l ELSE Append(acc, c), << >>, x.l), LAMBDA c : c.T # "Text")
   IN /\ RenderPar(docs[d], m) = RenderPar(docs[d], n)
      /\ others(m) = others(n)
      /\ MergePar(m, Rule(k)) = m
      /\ k = "never" => Len(m.l) = Len(n.l)
DropLaw == \A d \in DOMAIN docs : \A k \in Kinds :
   LET b == DropBody(docs[d].body, k) IN
   /\ DropBody(b, k) = b
   /\ Len(b) = Len(docs[d].body)
   /\ \A i \in DOMAIN b : b[i].T \in {"Paragraph", "Table"} \/ b[i] = docs[d].body[i]
SetterLaw == \A d \in DOMAIN docs : \A p \in RunsOf(docs[d]) :
   LET n == GetBody(docs[d], p)
       c(v, m) == SetterResult("Run.Color", <<v>>, m)
   IN c("1", c("2", n)) = c("1", n) /\ SetterResult("Run.Bold", << >>, c("1", n)) = c("1", SetterResult("Run.Bold", << >>, n))
=================================================================================
