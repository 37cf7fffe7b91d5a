-------------------------------- MODULE Steps ---------------------------------
(* When a step of go-docx is acceptable: every event is an operation with its    *)
(* arguments, its outcome and the documents it changed; Failures is the set of   *)
(* <<property, what>> the step violates.  Trace applies this to histories        *)
(* recorded from the real library, MC to the transitions of the model.           *)
EXTENDS GoDocx

Chk(c, P, w) == IF c THEN {} ELSE {<<q, w>> : q \in P}
(* two bodies have to be equal *)
ChkEq(got, want, P, w) == IF got = want THEN {} ELSE {<<q, w \o " at " \o DiffSeq("", got, want)>> : q \in P}

(* ------------------------------------------------------------- documents ---- *)
(* body, rels, media; tmpl: the parts it carries besides; ct: declared content   *)
(* types; valid: that basis is a complete package; parsed: comes from a file;    *)
(* raw: contains items inserted as structs; wild: from a damaged file            *)
NoCt == [d |-> EmptyF, o |-> EmptyF]
Fresh == [body |-> << >>, rels |-> << >>, media |-> EmptyF, tmpl |-> EmptyF, ct |-> NoCt,
          valid |-> FALSE, parsed |-> FALSE, raw |-> FALSE, wild |-> FALSE,
          num |-> EmptyF, unk |-> {}]
ExpandBody(old, new) == [j \in DOMAIN new |-> IF "r" \in DOMAIN new[j] THEN old[new[j].r] ELSE new[j].n]
Get(D, k) == IF k \in DOMAIN D THEN D[k] ELSE Fresh
Observed(D, ev, k) ==
  LET old == Get(D, k)
  IN [old EXCEPT !.body = ExpandBody(old.body, ev.docs[k].body), !.rels = ev.docs[k].rels, !.media = ev.docs[k].media]
(* the documents after the event, as far as they are observed *)
After(D, ev) == [k \in DOMAIN D \cup DOMAIN ev.docs |-> IF k \in DOMAIN ev.docs THEN Observed(D, ev, k) ELSE D[k]]

(* ------------------------------------------------------------------ numbers -- *)
(* the last number known to be given for a name, -1 if not known *)
LastNum(d, name) == IF name \in DOMAIN d.num THEN d.num[name] ELSE IF name \in d.unk THEN -1 ELSE 0
RECURSIVE ToInt(_)
ToInt(s) == IF s = "" THEN 0 ELSE IF Ch(s, Len(s)) \notin Digits \/ Len(s) > 9 THEN -1
            ELSE LET v == CHOOSE k \in 0..9 : Str(k) = Ch(s, Len(s))
                     r == ToInt(SubSeq(s, 1, Len(s) - 1))
                 IN IF r < 0 THEN -1 ELSE 10 * r + v
NumOK(d, name, k) == LastNum(d, name) = -1 \/ ToInt(k) = LastNum(d, name) + 1
SetNum(d, name, k) == [d EXCEPT !.num = (name :> ToInt(k)) @@ d.num]
ForgetNum(d, name) == [d EXCEPT !.num = [k \in DOMAIN d.num \ {name} |-> d.num[k]], !.unk = d.unk \cup {name}]
SuffixAfter(s, prefix) == IF HasPrefix(s, prefix) THEN Drop(s, Len(prefix)) ELSE "?"

(* ------------------------------------------------------- references, media --- *)
RelsKept(pre, post) ==
  Chk(SelectSeq(post.rels, LAMBDA r : r \in Range0(pre.rels)) = pre.rels, {"C04"}, "former relationships are not kept")
  \cup Chk(IdsUnique(post.rels) \/ ~IdsUnique(pre.rels), {"C04", "C18"}, "relationship id used twice")
MediaKept(pre, post) ==
  Chk(\A m \in DOMAIN pre.media : m \in DOMAIN post.media /\ post.media[m] = pre.media[m], {"C05"}, "former media are not kept")
  \cup Chk(\A m \in DOMAIN pre.media : m \in DOMAIN post.media => post.media[m] = pre.media[m], {"C18"}, "a media name in use was given to another image")
SameRels(pre, post) == Chk(post.rels = pre.rels, {"C04"}, "relationships changed")
SameMedia(pre, post) == Chk(post.media = pre.media, {"C05"}, "media changed")
NoNewDangling(pre, post, P) == Chk(Dangling(post) \subseteq Dangling(pre), P, "reference leads nowhere")
(* ids of new drawings: items of post that are not in pre *)
FreshDrawings(pre, post, new) ==
  LET old == Range0(DrawingIds(pre.body))
      ids == DrawingIds(new)
  IN IF pre.raw THEN {}
     ELSE Chk(Distinct(ids) /\ \A i \in DOMAIN ids : ids[i] \notin old, {"C18"}, "drawing id already in use")

(* ------------------------------------------------------------- building ops -- *)
(* one new child at the end of the container, nothing else *)
NewChild(ev, post) == LastOf(GetBody(post, ev.p).l)
AddedOne(ev, pre, post, P) ==
  Chk(/\ GetBody(post, ev.p).l # << >>
      /\ Len(GetBody(post, ev.p).l) = Len(GetBody(pre, ev.p).l) + 1
      /\ post.body = PutBody(pre.body, ev.p, AppendTo(GetBody(pre, ev.p), NewChild(ev, post))),
      P, "not exactly one new element at the end")
  \cup Chk(ev.r.path = ev.p \o <<StepI(Len(GetBody(pre, ev.p).l) + 1)>>, P, "the returned element is not the new one")

PlainRun(n) == n.T = "Run" /\ n.a = EmptyF /\ DOMAIN n.o \subseteq {"RunProperties"} /\ (Has(n, "RunProperties") => n.o.RunProperties = Leaf("RunProperties"))
SpelledChild(c) == IF c.T = "Text" THEN At(c, "Text") ELSE IF c = Leaf("Tab") THEN "\t" ELSE IF c = Leaf("BarterRabbet") THEN "\n" ELSE "?"
Spells(n, text) ==
  /\ \A i \in DOMAIN n.l : n.l[i].T \in {"Text", "Tab", "BarterRabbet"}
  /\ \A i \in DOMAIN n.l : n.l[i].T = "Text" => \A j \in 1..Len(At(n.l[i], "Text")) : Ch(At(n.l[i], "Text"), j) \notin {"\t", "\n"}
  /\ FoldLeft(LAMBDA acc, c : acc \o SpelledChild(c), "", n.l) = text
SpacesMarked(n) ==
  \A i \in DOMAIN n.l : n.l[i].T = "Text" /\ EdgeSpace(At(n.l[i], "Text")) => At(n.l[i], "XMLSpace") = "preserve"

FAddText(ev, pre, post) ==
  LET n == NewChild(ev, post) IN
  AddedOne(ev, pre, post, {"C12", "C20"})
  \cup Chk(PlainRun(n), {"C12"}, "the new run is not a plain run")
  \cup Chk(Spells(n, ev.x[1]), {"C12"}, "the run does not spell the text")
  \cup Chk(SpacesMarked(n), {"C12", "C01"}, "spaces at the edge are not marked as preserved")
  \cup SameRels(pre, post) \cup SameMedia(pre, post)

FAddBreak(ev, pre, post) ==
  LET n == NewChild(ev, post) IN
  AddedOne(ev, pre, post, {"C20"})
  \cup Chk(PlainRun(n) /\ n.l = <<N("BarterRabbet", [Type |-> "page"], EmptyF, << >>)>>, {"C20", "C12"}, "not a page break")
  \cup SameRels(pre, post) \cup SameMedia(pre, post)

FAddLink(ev, pre, post) ==
  LET n == NewChild(ev, post)
      id == At(n, "ID")
      k == RelIdx(post.rels, id)
      run == Kid(n, "Run")
  IN AddedOne(ev, pre, post, {"C20", "C04"})
     \cup Chk(n.T = "Hyperlink" /\ k > 0 /\ post.rels[k] = Rel(id, RelLink, ev.x[2], "External"), {"C04"}, "the link does not lead to the given target")
     \cup Chk(n.T = "Hyperlink" /\ (IF RenderRun(post, run) = "" THEN At(run, "InstrText") ELSE RenderRun(post, run)) = ev.x[1], {"C12", "C04"}, "the link has another text")
     \cup Chk(id \notin RelIds(pre.rels) \/ id = "" \/ (\E r \in Range0(pre.rels) : r = Rel(id, RelLink, ev.x[2], "External")), {"C18", "C04"}, "the relationship id was in use")
     \cup RelsKept(pre, post) \cup MediaKept(pre, post)

OneFrame(n, kind) == /\ PlainRun(n) /\ Len(n.l) = 1 /\ n.l[1].T = "Drawing" /\ DOMAIN n.l[1].o = {kind}
FramePart(n, kind) == Kid(LastOf(n.l), kind)
(* what the schema demands of a frame *)
FrameForm(f, kind) ==
  /\ {"Extent", "DocPr", "Graphic"} \subseteq DOMAIN f.o
  /\ kind = "Anchor" => /\ {"SimplePosXY", "PositionH", "PositionV"} \subseteq DOMAIN f.o
                        /\ Cardinality({"WrapNone", "WrapSquare"} \cap DOMAIN f.o) = 1
                        /\ At(f.o.PositionH, "RelativeFrom") # "" /\ At(f.o.PositionV, "RelativeFrom") # ""
UriPic == "http://schemas.openxmlformats.org/drawingml/2006/picture"
UriShape == "http://schemas.microsoft.com/office/word/2010/wordprocessingShape"
ExtentIs(e, w, h) == At(e, "CX") = NormInt(w) /\ At(e, "CY") = NormInt(h)
FAddPic(ev, pre, post) ==
  LET n == NewChild(ev, post)
      kind == ev.x[1]
      f == FramePart(n, kind)
      pic == Kid(GData(f), "Pic")
      w == Str(PicWidth(ev.q.w, ev.q.h))
      h == Str(PicHeight(ev.q.w, ev.q.h))
      num == SuffixAfter(At(Kid(f, "DocPr"), "Name"), ev.q.name \o " ")
      embed == At(Kid(Kid(pic, "BlipFill"), "Blip"), "Embed")
  IN IF ~ev.q.img
     THEN Chk(ev.out = "err", {"C19"}, "no error for content that is not an image")
          \cup Chk(pre = post, {"C19"}, "a failed addition changed the document")
     ELSE IF ev.out # "ok" THEN {<<"C19", "a valid image is refused">>}
     ELSE AddedOne(ev, pre, post, {"C19", "C20"})
          \cup Chk(OneFrame(n, kind), {"C19"}, "not one drawing of the requested kind")
          \cup Chk(DOMAIN GData(f).o = {"Pic"} /\ At(GData(f), "URI") = UriPic, {"C19"}, "the drawing is not a picture")
          \cup Chk(FrameForm(f, kind), {"C19"}, "the drawing lacks a required part")
          \cup Chk(ExtentIs(Kid(f, "Extent"), w, h) /\ ExtentIs(NodeAt(pic, <<StepF("SpPr"), StepF("Xfrm"), StepF("Ext")>>), w, h), {"C19"}, "wrong picture size")
          \cup Chk(ImageOf(post, embed) = ev.q.md5, {"C05", "C19", "C04"}, "the picture does not lead to the given bytes")
          \cup Chk(RelIdx(post.rels, embed) > 0 /\ post.rels[RelIdx(post.rels, embed)].type = RelImage, {"C04"}, "the picture has no image relationship")
          \cup Chk(NumOK(pre, ev.q.name, num), {"C18"}, "the picture number does not increase by one")
          \cup FreshDrawings(pre, post, <<n>>)
          \cup RelsKept(pre, post) \cup MediaKept(pre, post)

FAddShape(ev, pre, post) ==
  LET n == NewChild(ev, post)
      kind == ev.x[1]
      f == FramePart(n, kind)
      sp == Kid(Kid(GData(f), "Shape"), "SpPr")
      num == SuffixAfter(At(Kid(f, "DocPr"), "Name"), ev.x[4] \o " ")
  IN AddedOne(ev, pre, post, {"C19", "C20"})
     \cup Chk(OneFrame(n, kind) /\ DOMAIN GData(f).o = {"Shape"} /\ At(GData(f), "URI") = UriShape, {"C19"}, "not one shape drawing of the requested kind")
     \cup Chk(FrameForm(f, kind), {"C19"}, "the drawing lacks a required part")
     \cup Chk(ExtentIs(Kid(f, "Extent"), ev.x[2], ev.x[3]) /\ ExtentIs(NodeAt(sp, <<StepF("Xfrm"), StepF("Ext")>>), ev.x[2], ev.x[3]), {"C19"}, "wrong shape size")
     \cup Chk(ToInt(num) > 0, {"C19"}, "wrong shape name")
     \cup Chk(NumOK(pre, ev.x[4], num), {"C18"}, "the shape number does not increase by one")
     \cup Chk(At(sp, "BWMode") = ev.x[5] /\ At(Kid(sp, "PrstGeom"), "Prst") = ev.x[6], {"C19"}, "wrong shape preset")
     \cup Chk(Kid(sp, "Line") = ev.q.ln, {"C19"}, "wrong shape line")
     \cup FreshDrawings(pre, post, <<n>>)
     \cup SameRels(pre, post) \cup SameMedia(pre, post)

(* ---------------------------------------------------------------- tables ----- *)
Color(c) == IF c = "" THEN "#000000" ELSE c
Sides == <<"Top", "Left", "Bottom", "Right", "InsideH", "InsideV">>
TableWidthOK(n, w) ==
  LET k == NodeAt(n, <<StepF("TableProperties"), StepF("Width")>>)
      v == NormInt(w)
  IN IF v = "" \/ Ch(v, 1) = "-" THEN At(k, "W") = "" /\ At(k, "Type") = "auto" ELSE At(k, "W") = v
Positive(s) == NormInt(s) # "" /\ Ch(s, 1) # "-"
FAddTable(ev, pre, post) ==
  LET n == NewChild(ev, post)
      rows == ev.q.rows
      cols == ev.q.cols
      twips == ev.op = "AddTableTwips"
      cells == {<<r, c>> : r \in 1..rows, c \in 1..cols}
      cell(r, c) == n.l[r].l[c]
  IN AddedOne(ev, pre, post, {"C16", "C20"})
     \cup Chk(n.T = "Table" /\ Len(n.l) = rows /\ \A r \in 1..rows : n.l[r].T = "WTableRow" /\ Len(n.l[r].l) = cols, {"C16"}, "wrong number of rows or columns")
     \cup (IF n.T = "Table" /\ Len(n.l) = rows /\ \A r \in 1..rows : Len(n.l[r].l) = cols
           THEN Chk(\A r \in 1..rows, c \in 1..cols : cell(r, c).T = "WTableCell" /\ cell(r, c).l = << >>, {"C16"}, "a cell is not empty")
                \cup Chk(\A r \in 1..rows, c \in 1..cols : DOMAIN cell(r, c).o \subseteq {"TableCellProperties"}
                              /\ DOMAIN Kid(cell(r, c), "TableCellProperties").o \subseteq {"TableCellWidth"}, {"C16"}, "a cell has properties nobody asked for")
                \cup Chk(\A r \in 1..rows, c \in 1..cols :
                            LET w == NodeAt(cell(r, c), <<StepF("TableCellProperties"), StepF("TableCellWidth")>>)
                            IN IF twips THEN (Positive(ev.q.ws[c]) => At(w, "W") = NormInt(ev.q.ws[c]) /\ At(w, "Type") = "dxa")
                               ELSE At(w, "W") = "" /\ At(w, "Type") = "auto", {"C16"}, "wrong cell width")
                \cup Chk(\A r \in 1..rows :
                            LET h == NodeAt(n.l[r], <<StepF("TableRowProperties"), StepF("TableRowHeight")>>)
                            IN IF twips /\ Positive(ev.q.hs[r]) THEN At(h, "Val") = NormInt(ev.q.hs[r]) ELSE At(h, "Val") = "", {"C16"}, "wrong row height")
           ELSE {})
     \cup Chk(LET g == Kid(n, "TableGrid").l IN
              IF twips THEN Len(g) = cols /\ \A c \in 1..cols : IF Positive(ev.q.ws[c]) THEN At(g[c], "W") = NormInt(ev.q.ws[c]) ELSE At(g[c], "W") = ""
              ELSE g = << >>, {"C16"}, "wrong table grid")
     \cup Chk(TableWidthOK(n, ev.x[1]), {"C16"}, "wrong table width")
     \cup Chk(\A i \in DOMAIN Sides :
                LET b == NodeAt(n, <<StepF("TableProperties"), StepF("TableBorders"), StepF(Sides[i])>>)
                IN b.T = "WTableBorder" /\ At(b, "Color") = Color(ev.q.colors[i]), {"C16"}, "wrong border colour")
     \cup Chk(\A k \in DOMAIN ev.r.given : ev.r.given[k] = ev.q[k], {"C16"}, "an argument has been changed")
     \cup SameRels(pre, post) \cup SameMedia(pre, post)

PageSize(k) == IF k = "A3" THEN [W |-> "16838", H |-> "23811"] ELSE [W |-> "11906", H |-> "16838"]
FAddPage(ev, pre, post) ==
  LET n == NewChild(ev, post) IN
  AddedOne(ev, pre, post, {"C20"})
  \cup Chk(n = N("SectPr", EmptyF, [PgSz |-> N("PgSz", PageSize(ev.x[1]), EmptyF, << >>)], << >>), {"C20"}, "wrong section")
  \cup SameRels(pre, post) \cup SameMedia(pre, post)
FAddParagraph(ev, pre, post) ==
  LET P == IF ev.p = << >> THEN {"C20"} ELSE {"C20", "C16"} IN
  AddedOne(ev, pre, post, P)
  \cup Chk(NewChild(ev, post) = NewParagraph, P, "the new paragraph is not empty")
  \cup SameRels(pre, post) \cup SameMedia(pre, post)

(* --------------------------------------------------------------- setters ----- *)
(* elements an operation made are apart from all others: what a later change shows *)
ApartProps(by) ==
  CASE by \in {"AddTable", "AddTableTwips"} -> {"C16"}
    [] by = "Split" -> {"C07"}
    [] by = "Append" -> {"C08"}
    [] by \in Setters \ {"Poke"} -> {"C17"}
    [] by = "" -> {}
    [] OTHER -> {"C20"}
By(ev) == IF "by" \in DOMAIN ev.q THEN ev.q.by ELSE ""
SetterProps(op, p, pre, by) ==
  (CASE op \in {"Inline.Size", "Anchor.Size"} -> {"C19"}
     [] op = "Run.AddTab" -> {"C12", "C20"}
     [] op = "Poke" -> {"C09"} \cup ApartProps(by)
     [] OTHER -> {"C17"})
  \cup (IF p # << >> /\ GetBody(pre, <<p[1]>>).T = "Table" THEN {"C16"} ELSE {})
FSetter(ev, pre, post) ==
  LET P == SetterProps(ev.op, ev.p, pre, By(ev)) IN
  Chk(GetBody(post, ev.p) = SetterResult(ev.op, ev.x, GetBody(pre, ev.p)), P \ {"C16"}, "wrong result of the setter")
  \cup Chk(post.body = PutBody(pre.body, ev.p, GetBody(post, ev.p)), P, "the setter changed something else")
  \cup Chk(ev.r.path = ev.p, P \ {"C16"}, "the setter does not return its element")
  \cup SameRels(pre, post) \cup SameMedia(pre, post)

(* ---------------------------------------------------------- keep, drop, merge -- *)
FKeep(ev, pre, post) ==
  LET n == GetBody(pre, ev.p) IN
  Chk(post.body = PutBody(pre.body, ev.p, [n EXCEPT !.l = Keep(n.l, Range0(ev.x))]), {"C11"}, "wrong elements kept")
  \cup SameRels(pre, post) \cup SameMedia(pre, post)
FDrop(ev, pre, post) ==
  Chk(IF ev.op = "Body.Drop" THEN post.body = DropBody(pre.body, ev.x[1])
      ELSE post.body = PutBody(pre.body, ev.p, DropPar(GetBody(pre, ev.p), ev.x[1])), {"C11"}, "wrong drawings dropped")
  \cup SameRels(pre, post) \cup SameMedia(pre, post)
FMerge(ev, pre, post) ==
  LET p == GetBody(pre, ev.p)
      m == MergePar(p, ev.q)
  IN IF ev.op = "Par.MergeText"
     THEN Chk(ev.r.n = m, {"C10"}, "wrong result of the merge")
          \cup Chk(post = pre, {"C10", "C09"}, "merging changed the merged paragraph")
     ELSE Chk(post.body = PutBody(pre.body, ev.p, m), {"C10"}, "wrong result of the merge")
          \cup SameRels(pre, post) \cup SameMedia(pre, post)

(* ------------------------------------------------------------------ reading --- *)
FString(ev, pre, post) ==
  LET n == GetBody(pre, ev.p) IN
  IF pre.raw \/ ~Renderable(pre, n) THEN {}
  ELSE Chk(ev.r.s = (IF n.T = "Table" THEN RenderTable(pre, n) ELSE RenderPar(pre, n)), {"C12"}, "wrong rendering")
FLookup(ev, pre) ==
  CASE ev.op = "ReferTarget" ->
         IF Resolves(pre.rels, ev.x[1])
         THEN Chk(ev.out = "ok" /\ \E r \in Range0(pre.rels) : r.id = ev.x[1] /\ r.target = ev.r.s, {"C04"}, "wrong target of an id")
         ELSE Chk(ev.out = "err", {"C04"}, "no error for an unknown id")
    [] ev.op = "ReferID" ->
         IF \E r \in Range0(pre.rels) : r.target = ev.x[1]
         THEN Chk(ev.out = "ok" /\ \E r \in Range0(pre.rels) : r.id = ev.r.s /\ r.target = ev.x[1], {"C04"}, "wrong id of a target")
         ELSE Chk(ev.out = "err", {"C04"}, "no error for an unknown target")
    [] ev.op = "Range" ->
         LET k == ToInt(ev.x[1])
             stop == k < Len(pre.rels)
         IN Chk(ev.r.list = SubSeq(pre.rels, 1, IF stop THEN k + 1 ELSE Len(pre.rels)), {"C04"}, "the iteration does not visit each relationship once in order")
            \cup Chk((ev.out = "err") = stop, {"C04"}, "the iteration returns the wrong error")
    [] ev.op = "Media" ->
         IF ev.x[1] \in DOMAIN pre.media
         THEN Chk(ev.r.s = pre.media[ev.x[1]] /\ ev.r.name = ev.x[1], {"C05"}, "wrong media of a name")
         ELSE Chk(ev.r.s = "", {"C05"}, "media of an unknown name")
    [] OTHER -> {}

(* ----------------------------------------------------------- split and append -- *)
FSplit(ev, pre, D2) ==
  LET ps == Pieces(Len(pre.body), ev.q.seps)
      nd == ev.r.docs
  IN Chk(Len(nd) = Len(ps), {"C07"}, "wrong number of pieces")
     \cup UNION {
       LET piece == Get(D2, nd[k])
           part  == IF k <= Len(ps) THEN SubSeq(pre.body, ps[k][1], ps[k][2]) ELSE << >>
           ok    == ViewSeq(piece, "copy", piece.body) = ViewSeq(pre, "copy", part)
           ids   == DrawingIds(piece.body)
       IN Chk(ok, {"C07"}, "a piece does not equal its part of the document")
          \cup Chk(ok \/ Len(piece.body) # Len(part) \/
                   (\A i \in DOMAIN part : Len(AllOf("Hyperlink", part[i])) = 0 /\ Len(AllOf("ABlip", part[i])) = 0), {"C04", "C05"}, "references of a piece may lead elsewhere")
          \cup Chk(IdsUnique(piece.rels) \/ ~IdsUnique(pre.rels), {"C07", "C04", "C18"}, "relationship id used twice in a piece")
          \cup Chk(Dangling(piece) = {}, {"C07", "C04"}, "a reference of a piece leads nowhere")
          \cup Chk(Distinct(ids), {"C07", "C18"}, "drawing id used twice in a piece")
          \cup Chk(Range0(OtherRels(pre)) \subseteq Range0(piece.rels), {"C07", "C03"}, "a piece lost relationships")
          \cup Chk(\A m \in DOMAIN piece.media : \E s \in DOMAIN pre.media : pre.media[s] = piece.media[m], {"C05"}, "a piece has other image bytes")
       : k \in DOMAIN nd}
FAppend(ev, pre, post, src) ==
  LET n == Len(pre.body)
      new == SubSeq(post.body, n + 1, Len(post.body))
      want == ViewSeq(src, "copy", src.body)
      got == ViewSeq(post, "copy", new)
  IN Chk(SubSeq(post.body, 1, n) = pre.body, {"C08"}, "the former body changed")
     \cup Chk(got = want, {"C08"}, "the appended content is not that of the other document")
     \cup Chk(got = want \/ Len(got) # Len(want) \/
              (\A i \in DOMAIN want : got[i] = want[i] \/ (Len(AllOf("Hyperlink", want[i])) = 0 /\ Len(AllOf("ABlip", want[i])) = 0)), {"C04", "C05"}, "appended references may lead elsewhere")
     \cup NoNewDangling(pre, post, {"C08", "C04"})
     \cup FreshDrawings(pre, post, new)
     \cup RelsKept(pre, post) \cup MediaKept(pre, post)

(* --------------------------------------------------------- packages, parsing -- *)
DocPart == "word/document.xml"
RelsPart == "word/_rels/document.xml.rels"
CtPart == "[Content_Types].xml"
ToLowerExt(pk, part) == IF part \in DOMAIN pk.ext THEN pk.ext[part] ELSE ""
HasType(pk, part) == ("/" \o part) \in DOMAIN pk.ct.o \/ ToLowerExt(pk, part) \in DOMAIN pk.ct.d
Sound(pk) == pk.zip /\ pk.dups = << >> /\ pk.bad = << >>
Leads(pk) == \E i \in DOMAIN pk.off : JoinSlash(Segments(pk.off[i])) = DocPart
InternalLead(pk) == \A i \in DOMAIN pk.rels : pk.rels[i].mode # "External" => PartOf(pk.rels[i].target) \in DOMAIN pk.parts
Typed(pk) == \A part \in DOMAIN pk.parts : part = CtPart \/ HasType(pk, part)
ValidPkg(pk) == Sound(pk) /\ Leads(pk) /\ InternalLead(pk) /\ Typed(pk) /\ DocPart \in DOMAIN pk.parts
OwnParts(d) == {DocPart, RelsPart} \cup {MediaPart(m) : m \in DOMAIN d.media}
BaseOf(pk, media) == [k \in (DOMAIN pk.parts \ {DocPart, RelsPart}) \ {MediaPart(m) : m \in DOMAIN media} |-> pk.parts[k]]

(* media a template brings along *)
TemplateMedia(d) ==
  LET ps == {k \in DOMAIN d.tmpl : HasPrefix(k, "word/media/")}
  IN [m \in {Drop(k, Len("word/media/")) : k \in ps} |-> d.tmpl[MediaPart(m)]]

RECURSIVE Lacks(_)
(* the attributes that are demanded but missing *)
Lacks(x) ==
  (IF x.t \in DOMAIN Required THEN {x.t \o " " \o q : q \in Required[x.t] \ DOMAIN x.a} ELSE {})
  \cup UNION {Lacks(c) : c \in {y \in Range0(x.c) : y.t # "#"}}
FPackage(pk, d) ==
  Chk(pk.zip, {"C03", "C13"}, "not a readable zip")
  \cup Chk(pk.dups = << >>, {"C03"}, "part name used twice")
  \cup Chk(pk.bad = << >>, {"C03"}, "XML is not namespace-well-formed")
  \cup (IF ~d.valid THEN {}
        ELSE Chk(Leads(pk) /\ DocPart \in DOMAIN pk.parts, {"C03"}, "the package relationships do not lead to the document")
             \cup Chk(InternalLead(pk), {"C03"}, "a relationship leads to a part that is not there")
             \cup Chk(Typed(pk), {"C03"}, "a part has no content type"))
  \cup Chk(DOMAIN d.tmpl \subseteq DOMAIN pk.parts, {"C06"}, "a part of the template is missing")
  \cup Chk(DOMAIN pk.parts \subseteq DOMAIN d.tmpl \cup OwnParts(d), {"C06"}, "a part was added")
  \cup Chk(\A k \in DOMAIN d.tmpl \cap DOMAIN pk.parts : k = CtPart \/ k \in OwnParts(d) \/ pk.parts[k] = d.tmpl[k], {"C06"}, "a part of the template was altered")
  \cup Chk(CtPart \notin DOMAIN d.tmpl \/ CtPart \notin DOMAIN pk.parts \/ pk.parts[CtPart] = d.tmpl[CtPart]
           \/ (/\ \A e \in DOMAIN d.ct.d : e \in DOMAIN pk.ct.d /\ pk.ct.d[e] = d.ct.d[e]
               /\ \A e \in DOMAIN d.ct.o : e \in DOMAIN pk.ct.o /\ pk.ct.o[e] = d.ct.o[e]
               /\ pk.ct # d.ct
               /\ \A e \in DOMAIN pk.ct.o \ DOMAIN d.ct.o : \E m \in DOMAIN d.media : e = "/" \o MediaPart(m)
               /\ \A e \in DOMAIN pk.ct.d \ DOMAIN d.ct.d : \E m \in DOMAIN d.media : ToLowerExt(pk, MediaPart(m)) = e), {"C06"}, "the content types were altered")
  \cup Chk(\A m \in DOMAIN d.media : MediaPart(m) \in DOMAIN pk.parts /\ pk.parts[MediaPart(m)] = d.media[m], {"C05"}, "the saved image bytes differ")
  \cup Chk(pk.rels = d.rels, {"C04", "C01"}, "the saved relationships differ")
  \cup (IF pk.bad # << >> THEN {}
        ELSE ChkEq(ReadDocument(pk.doc), CleanSeq(d.body), {"C01"}, "the saved document states another content")
             \cup {<<"C03", "a demanded attribute is missing: " \o q>> : q \in Lacks(pk.doc)})

FParsed(pk, post, P) ==
  ChkEq(post.body, ReadDocument(pk.doc), P, "the parsed content is not that of the file")
  \cup Chk(post.rels = pk.rels, {"C04"} \cup P, "the parsed relationships differ")
  \cup Chk(LET ms == {m \in DOMAIN pk.parts : HasPrefix(m, "word/media/")}
           IN ms = {MediaPart(m) : m \in DOMAIN post.media} /\ \A m \in DOMAIN post.media : MediaPart(m) \in ms => post.media[m] = pk.parts[MediaPart(m)],
           {"C05"} \cup P, "the parsed media differ")

FSave(ev, pre, D2) ==
  IF ev.out # "ok" THEN {<<q, "saving fails">> : q \in {"C01", "C03", "C13"}}
  ELSE FPackage(ev.q.pkg, pre)
       \cup Chk(ev.r.n = ev.r.len, {"C13"}, "wrong number of written bytes")
       \cup (IF ev.r.nd = "" THEN {}
             ELSE IF ev.r.reload # "ok" THEN {<<"C01", "the saved package cannot be parsed">>, <<"C14", "the saved package cannot be parsed">>}
             ELSE ChkEq(Get(D2, ev.r.nd).body, CleanSeq(pre.body), {"C01"}, "the reloaded content differs")
                  \cup Chk(Get(D2, ev.r.nd).rels = pre.rels, {"C01", "C04"}, "the reloaded relationships differ")
                  \cup Chk(Get(D2, ev.r.nd).media = pre.media @@ TemplateMedia(pre), {"C01", "C05"}, "the reloaded media differ")
                  \cup (IF ev.q.pkg.bad # << >> THEN {} ELSE ChkEq(Get(D2, ev.r.nd).body, ReadDocument(ev.q.pkg.doc), {"C02"}, "the parsed content is not that of the file")))

FParse(ev, post) ==
  IF ev.q.wild THEN {}
  ELSE IF ev.out # "ok" THEN {<<"C02", "a well-formed package is refused">>}
  ELSE FParsed(ev.q.pkg, post, {"C02"})

FLoad(ev, post) ==
  Chk(post.body = ev.q.items, {"C20"}, "the loaded items are not the given ones")
  \cup Chk(post.media = ev.q.media, {"C05", "C20"}, "the loaded media are not the given ones")
FNew(ev, post) ==
  Chk(post.body = << >> /\ post.media = EmptyF, {"C20"}, "a new document is not empty")
  \cup Chk(IdsUnique(post.rels) /\ \A r \in Range0(post.rels) : r.mode # "External", {"C04", "C18"}, "a new document has odd relationships")
FTemplate(ev, pre, post) ==
  Chk(post.body = pre.body /\ post.rels = pre.rels /\ post.media = pre.media, {"C20"}, "choosing a template changes the content")
FInsert(ev, pre, post) ==
  Chk(post.body = Append(pre.body, ev.q.n), {"C01"}, "the inserted element is another one") \cup SameRels(pre, post) \cup SameMedia(pre, post)

(* ------------------------------------------------- saving under faults (C13) -- *)
(* see SaveFault: the same guarantees for the observed saves                       *)
FFault(ev) ==
  Chk(ev.out = "err" \/ ev.q.complete, {"C13"}, "success is reported for an incomplete package")
  \cup Chk(ev.out # "ok" \/ ev.q.kind \notin {"open", "read"}, {"C13"}, "a failing template part is not reported")
  \cup Chk(ev.q.kind # "none" \/ ev.out = "ok", {"C13"}, "a save fails though nothing was in its way")
  \cup Chk(ev.q.counted, {"C13"}, "the written size is not the number of bytes the writer took")
  \cup Chk(ev.q.open = 0, {"C13"}, "a template file is left open")
  \cup Chk(ev.q.again, {"C13"}, "a later save does not give the complete package")

(* ----------------------------------------------------------- concurrency (C15) -- *)
(* the counter: every number once, without gaps, in real-time order               *)
FCounter(ev) ==
  LET h == ev.q.calls   \* sequence of [s |-> start, e |-> end, v |-> number]
      n == Len(h)
  IN Chk({h[i].v : i \in DOMAIN h} = 1..n, {"C15", "C18"}, "the concurrent numbers are not each given once without gaps")
     \cup Chk(\A i, j \in DOMAIN h : h[i].e < h[j].s => h[i].v < h[j].v, {"C15"}, "the concurrent numbers are not in real-time order")
FConc(ev) ==
  Chk(\A i \in DOMAIN ev.q.same : ev.q.same[i], {"C15"}, "a concurrent result differs from the sequential one")

(* ---------------------------------------------------- predictions of the model -- *)
RECURSIVE Show(_, _, _)
(* a short text that tells documents of different meaning apart; tok names images *)
Show(d, tok, n) ==
  LET v == Vocab[n.T]
      val(f) == LET s == At(n, f) IN
                CASE n.T = "Hyperlink" /\ f = "ID" -> IF Resolves(d.rels, s) THEN ">" \o TargetOf(d.rels, s) ELSE s
                  [] n.T = "ABlip" /\ f = "Embed" -> LET im == ImageOf(d, s) IN IF im \in DOMAIN tok THEN tok[im] ELSE IF im = "" THEN "" ELSE "?"
                  [] n.T = "WPDocPr" /\ f = "ID" -> ""
                  [] OTHER -> s
      cat(s, x) == IF x = "" THEN s ELSE s \o "," \o x
      as == FoldLeft(LAMBDA acc, i : cat(acc, val(v.a[i][2])), "", [i \in 1..Len(v.a) |-> i])
      ks == FoldLeft(LAMBDA acc, i :
                 LET k == v.k[i] IN
                 IF k[4] \in {"s", "n"} THEN cat(acc, At(n, k[2]))
                 ELSE IF ~Has(n, k[2]) THEN acc
                 ELSE IF k[4] \in {"f", "fo"} THEN acc \o "+" \o k[2]
                 ELSE IF k[2] = "DocPr" /\ IsPic(n) THEN acc
                 ELSE IF n.T = "PICNonVisualPicProperties" /\ k[2] = "NonVisualDrawingProperties" THEN acc
                 ELSE acc \o Show(d, tok, n.o[k[2]]), "", [i \in 1..Len(v.k) |-> i])
      ls == FoldLeft(LAMBDA acc, c : acc \o Show(d, tok, c), "", n.l)
      in == as \o (IF v.txt THEN "'" \o At(n, "Text") ELSE "") \o ks \o ls
  IN n.T \o "(" \o in \o ")"
ShowDoc(d, tok) == FoldLeft(LAMBDA acc, c : acc \o Show(d, tok, c), "", d.body)
FExpect(ev, D) ==
  UNION {Chk(k \in DOMAIN D /\ ShowDoc(Get(D, k), ev.q.tok) = ev.q.want[k], Range0(ev.q.props), "the result is not the one of the model: " \o k \o " " \o ShowDoc(Get(D, k), ev.q.tok) \o " / " \o ev.q.want[k])
         : k \in DOMAIN ev.q.want}
  \cup Chk(DOMAIN D = DOMAIN ev.q.want, Range0(ev.q.props), "other documents than in the model")

(* ------------------------------------------------------------------- outcome --- *)
OpProps(op) ==
  CASE op \in {"AddText", "AddTab", "Run.AddTab"} -> {"C12", "C20"}
    [] op \in {"Par.String", "Table.String"} -> {"C12"}
    [] op \in {"AddParagraph", "AddPageBreaks", "AddPage", "Load", "New", "Template"} -> {"C20"}
    [] op = "Cell.AddParagraph" -> {"C16", "C20"}
    [] op = "AddLink" -> {"C04", "C20"}
    [] op \in {"ReferTarget", "ReferID", "Range"} -> {"C04"}
    [] op \in {"AddPic", "AddShape"} -> {"C19", "C20"}
    [] op \in {"Inline.Size", "Anchor.Size"} -> {"C19"}
    [] op = "Media" -> {"C05"}
    [] op = "IncreaseID" -> {"C18"}
    [] op \in {"AddTable", "AddTableTwips"} -> {"C16", "C20"}
    [] op \in Setters -> {"C17"}
    [] op \in {"Body.Keep", "Par.Keep", "Run.Keep", "Body.Drop", "Par.Drop"} -> {"C11"}
    [] op \in {"Par.MergeText", "Par.MergeSelf"} -> {"C10"}
    [] op = "Split" -> {"C07"}
    [] op = "Append" -> {"C08"}
    [] op = "Save" -> {"C01", "C03"}
    [] op = "Parse" -> {"C02", "C14"}
    [] op = "Fault" -> {"C13"}
    [] op \in {"Conc", "Counter", "Race"} -> {"C15"}
    [] OTHER -> {}
ReadOnly == {"Par.String", "Table.String", "ReferTarget", "ReferID", "Range", "Media", "IncreaseID", "Save", "Split", "Fault", "Scribble",
             "Conc", "Counter", "Race"}
Creates(ev) == CASE ev.op \in {"New", "Parse", "Load"} -> {ev.d}
                 [] ev.op = "Split" -> Range0(ev.r.docs)
                 [] ev.op = "Save" -> {ev.r.nd}
                 [] OTHER -> {}
Frame(D, ev) ==
  LET others == DOMAIN ev.docs \ (Creates(ev) \cup {ev.d}) IN
  Chk(others = {}, {"C09"} \cup ApartProps(By(ev)) \cup (OpProps(ev.op) \cap {"C07", "C08"}), "another document changed")
  \cup Chk(ev.op \notin ReadOnly \/ ev.d \notin DOMAIN ev.docs, {"C09"} \cup ApartProps(By(ev)) \cup (OpProps(ev.op) \cap {"C07", "C12", "C13"}), "a read-only operation changed the document")

FailuresOf(D, D2, ev) ==
  LET pre == Get(D, ev.d)
      post == Get(D2, ev.d)
      src == IF ev.op = "Append" /\ "src" \in DOMAIN ev.q THEN Get(D, ev.q.src) ELSE Fresh
  IN IF ev.out \in {"panic", "hang", "fatal"}
     THEN {<<q, ev.out \o " in " \o ev.op>> : q \in OpProps(ev.op) \cup (IF pre.parsed \/ src.parsed \/ ev.op = "Parse" \/ (ev.out = "fatal" /\ ev.q.parsed) THEN {"C14"} ELSE {})}
     ELSE IF (pre.wild \/ src.wild) /\ ev.op # "Parse" THEN {}
     ELSE Frame(D, ev) \cup
     (CASE ev.op = "AddParagraph" -> FAddParagraph(ev, pre, post)
        [] ev.op = "Cell.AddParagraph" -> FAddParagraph(ev, pre, post)
        [] ev.op \in {"AddText", "AddTab"} -> FAddText(ev, pre, post)
        [] ev.op = "AddPageBreaks" -> FAddBreak(ev, pre, post)
        [] ev.op = "AddPage" -> FAddPage(ev, pre, post)
        [] ev.op = "AddLink" -> FAddLink(ev, pre, post)
        [] ev.op = "AddPic" -> FAddPic(ev, pre, post)
        [] ev.op = "AddShape" -> FAddShape(ev, pre, post)
        [] ev.op \in {"AddTable", "AddTableTwips"} -> FAddTable(ev, pre, post)
        [] ev.op \in Setters -> FSetter(ev, pre, post)
        [] ev.op \in {"Body.Keep", "Par.Keep", "Run.Keep"} -> FKeep(ev, pre, post)
        [] ev.op \in {"Body.Drop", "Par.Drop"} -> FDrop(ev, pre, post)
        [] ev.op \in {"Par.MergeText", "Par.MergeSelf"} -> FMerge(ev, pre, post)
        [] ev.op \in {"Par.String", "Table.String"} -> FString(ev, pre, post)
        [] ev.op \in {"ReferTarget", "ReferID", "Range", "Media"} -> FLookup(ev, pre)
        [] ev.op = "IncreaseID" -> Chk(NumOK(pre, ev.x[1], ev.r.s), {"C18"}, "the number does not increase by one")
        [] ev.op = "Split" -> FSplit(ev, pre, D2)
        [] ev.op = "Append" -> FAppend(ev, pre, post, src)
        [] ev.op = "Save" -> FSave(ev, pre, D2)
        [] ev.op = "Parse" -> FParse(ev, post)
        [] ev.op = "Load" -> FLoad(ev, post)
        [] ev.op = "Insert" -> FInsert(ev, pre, post)
        [] ev.op = "New" -> FNew(ev, post)
        [] ev.op = "Template" -> FTemplate(ev, pre, post)
        [] ev.op = "Fault" -> FFault(ev)
        [] ev.op = "Counter" -> FCounter(ev)
        [] ev.op = "Conc" -> FConc(ev)
        [] ev.op = "Expect" -> FExpect(ev, D)
        [] ev.op = "Race" -> Chk(FALSE, {"C15"}, "data race")
        [] OTHER -> {})

Failures(D, ev) == FailuresOf(D, After(D, ev), ev)

(* ------------------------------------------------------- the state afterwards -- *)
Meta(D, ev, k, d) ==
  LET pre == Get(D, ev.d)
      src == IF ev.op = "Append" /\ "src" \in DOMAIN ev.q THEN Get(D, ev.q.src) ELSE Fresh
  IN CASE ev.op = "Template" /\ k = ev.d -> [d EXCEPT !.tmpl = ev.q.parts, !.ct = ev.q.ct, !.valid = ev.q.valid]
       [] ev.op = "Parse" /\ k = ev.d ->
            IF ev.q.wild THEN [d EXCEPT !.wild = TRUE, !.parsed = TRUE]
            ELSE [d EXCEPT !.parsed = TRUE, !.tmpl = BaseOf(ev.q.pkg, d.media), !.ct = ev.q.pkg.ct, !.valid = ValidPkg(ev.q.pkg)]
       [] ev.op = "Save" /\ k = ev.r.nd ->
            [d EXCEPT !.parsed = TRUE, !.wild = pre.wild, !.tmpl = BaseOf(ev.q.pkg, d.media), !.ct = ev.q.pkg.ct, !.valid = ValidPkg(ev.q.pkg)]
       [] ev.op = "Split" /\ k \in Range0(ev.r.docs) ->
            [d EXCEPT !.parsed = pre.parsed, !.wild = pre.wild, !.tmpl = pre.tmpl, !.ct = pre.ct, !.valid = pre.valid, !.unk = {ev.q.name}]
       [] ev.op = "Load" /\ k = ev.d -> [d EXCEPT !.raw = TRUE, !.unk = {ev.q.name}]
       [] ev.op = "Insert" /\ k = ev.d -> [d EXCEPT !.raw = TRUE]
       [] ev.op = "Append" /\ k = ev.d -> ForgetNum([d EXCEPT !.wild = d.wild \/ src.wild, !.parsed = d.parsed \/ src.parsed], ev.q.name)
       [] ev.op = "IncreaseID" /\ k = ev.d -> SetNum(d, ev.x[1], ev.r.s)
       [] ev.op = "AddPic" /\ k = ev.d /\ ev.out = "ok" ->
            LET s == SuffixAfter(At(Kid(FramePart(NewChild(ev, d), ev.x[1]), "DocPr"), "Name"), ev.q.name \o " ")
            IN IF ToInt(s) < 0 THEN ForgetNum(d, ev.q.name) ELSE SetNum(d, ev.q.name, s)
       [] ev.op = "AddShape" /\ k = ev.d /\ ev.out = "ok" ->
            LET s == SuffixAfter(At(Kid(FramePart(NewChild(ev, d), ev.x[1]), "DocPr"), "Name"), ev.x[4] \o " ")
            IN IF ToInt(s) < 0 THEN ForgetNum(d, ev.x[4]) ELSE SetNum(d, ev.x[4], s)
       [] OTHER -> d
AdoptOf(D, D2, ev) == [k \in DOMAIN D2 |-> Meta(D, ev, k, D2[k])]
Adopt(D, ev) == AdoptOf(D, After(D, ev), ev)
===============================================================================
