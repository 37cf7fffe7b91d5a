------------------------------ MODULE OoxmlCodec ------------------------------
(* What an XML document says, in terms of the element tree of go-docx.          *)
(*                                                                              *)
(* XML tree      [t |-> "w:p", a |-> (name :> value), c |-> <<children>>]       *)
(*               character data is [t |-> "#", x |-> "..."]; names carry the    *)
(*               canonical prefix of their namespace, whatever prefix was used. *)
(* element tree  [T |-> type, a |-> (field :> non-zero value as a string),      *)
(*                o |-> (field :> child), l |-> <<list children>>]              *)
EXTENDS OoxmlVocab, Naturals, Integers, SequencesExt, FiniteSetsExt

EmptyF == [x \in {} |-> ""]
N(T, a, o, l) == [T |-> T, a |-> a, o |-> o, l |-> l]
Leaf(T)       == N(T, EmptyF, EmptyF, << >>)
Flag          == Leaf("Flag")
Nil           == Leaf("nil")

(* ---- defensive access: observed trees may be anything -------------------- *)
Has(n, f)  == f \in DOMAIN n.o
Kid(n, f)  == IF f \in DOMAIN n.o THEN n.o[f] ELSE Nil
At(n, f)   == IF f \in DOMAIN n.a THEN n.a[f] ELSE ""
XA(x, f)   == IF f \in DOMAIN x.a THEN x.a[f] ELSE ""

(* a function from pairs <<key, value>>, without the keys valued "" *)
FromPairs(S) == [k \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = k)[2]]
Attrs(pairs) == FromPairs({pairs[i] : i \in {j \in DOMAIN pairs : pairs[j][2] # ""}})
Kids(pairs)  == FromPairs({pairs[i] : i \in {j \in DOMAIN pairs : pairs[j][2] # Nil}})
(* set or remove one attribute / child *)
SetAt(n, f, v) == [n EXCEPT !.a = IF v = "" THEN [k \in DOMAIN n.a \ {f} |-> n.a[k]] ELSE (f :> v) @@ n.a]
SetKid(n, f, c) == [n EXCEPT !.o = (f :> c) @@ n.o]

(* ---- numbers -------------------------------------------------------------- *)
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Ch(s, i) == SubSeq(s, i, i)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
IndexOf(s, c) == LET I == {i \in 1..Len(s) : Ch(s, i) = c} IN IF I = {} THEN 0 ELSE Min(I)
RECURSIVE StripZeros(_)
StripZeros(s) == IF s # "" /\ Ch(s, 1) = "0" THEN StripZeros(Drop(s, 1)) ELSE s
(* canonical form of an integer notation, "" for zero (the fraction is cut off) *)
NormInt(s) ==
  IF s = "" THEN "" ELSE
  LET neg == Ch(s, 1) = "-"
      u   == IF Ch(s, 1) \in {"-", "+"} THEN Drop(s, 1) ELSE s
      dot == IndexOf(u, ".")
      ip  == IF dot > 0 THEN SubSeq(u, 1, dot - 1) ELSE u
      z   == StripZeros(ip)
  IN IF z = "" THEN "" ELSE IF neg THEN "-" \o z ELSE z
OnOff(s) == IF s \in {"true", "on"} THEN "1" ELSE IF s \in {"false", "off"} THEN "" ELSE NormInt(s)
Conv(kind, s) ==
  CASE kind = "s"  -> s
    [] kind = "i"  -> NormInt(s)
    [] kind = "b"  -> OnOff(s)
    [] kind = "b1" -> IF s = "" THEN "1" ELSE OnOff(s)
    [] OTHER -> s

(* ---- the reader ----------------------------------------------------------- *)
TextOf(x) == FoldLeft(LAMBDA acc, c : IF c.t = "#" THEN acc \o c.x ELSE acc, "", x.c)
EmptyX(tag) == [t |-> tag, a |-> EmptyF, c |-> << >>]
SupportedChoice == {"wps", "wpc", "wpg"}
TagsOf(ls) == {ls[i][1] : i \in DOMAIN ls}
TypeIn(ls, tag) == ls[CHOOSE i \in DOMAIN ls : ls[i][1] = tag][2]
LastWith(c, tag) == LET I == {i \in DOMAIN c : c[i].t = tag} IN IF I = {} THEN 0 ELSE Max(I)

(* mc:AlternateContent stands for the content of its first supported choice, or  *)
(* of the fallback                                                              *)
RECURSIVE Flatten(_)
Flatten(c) ==
  FoldLeft(LAMBDA acc, x :
     IF x.t # "mc:AlternateContent" THEN Append(acc, x)
     ELSE LET ch == SelectSeq(x.c, LAMBDA y : y.t = "mc:Fallback" \/ (y.t = "mc:Choice" /\ XA(y, "Requires") \in SupportedChoice))
          IN IF ch = << >> THEN acc ELSE acc \o Flatten(ch[1].c),
     << >>, c)

RECURSIVE Read(_, _)
ReadKid(k, c) ==
  LET i == LastWith(c, k[1]) IN
  CASE k[4] = "o" -> IF i = 0 THEN Nil ELSE Read(k[3], c[i])
    [] k[4] = "oa" -> IF i = 0 \/ XA(c[i], Vocab[k[3]].a[1][1]) = "" THEN Nil ELSE Read(k[3], c[i])
    [] k[4] = "v" -> Read(k[3], IF i = 0 THEN EmptyX(k[1]) ELSE c[i])
    [] k[4] = "f" -> IF i = 0 THEN Nil ELSE Flag
    [] k[4] = "fo" -> IF i = 0 THEN Nil
                      ELSE IF XA(c[i], "w:val") # "" /\ OnOff(XA(c[i], "w:val")) = "" THEN Nil ELSE Flag
    [] OTHER -> Nil
Read(T, x) ==
  LET v  == Vocab[T]
      c0 == IF T = "Run" THEN Flatten(x.c) ELSE x.c
      \* all runs of a link make up the link text
      rs == SelectSeq(c0, LAMBDA y : y.t = "w:r")
      c  == IF T = "Hyperlink" /\ rs # << >>
            THEN << [t |-> "w:r",
                     a |-> FoldLeft(LAMBDA acc, r : r.a @@ acc, EmptyF, rs),
                     c |-> FoldLeft(LAMBDA acc, r : acc \o r.c, << >>, rs)] >>
            ELSE c0
      a1 == [i \in DOMAIN v.a |-> <<v.a[i][2], Conv(v.a[i][3], XA(x, v.a[i][1]))>>]
      ks == SelectSeq(v.k, LAMBDA k : k[4] \in {"s", "n"})
      a2 == [i \in DOMAIN ks |->
               LET j == LastWith(c, ks[i][1]) IN
               <<ks[i][2], IF j = 0 THEN "" ELSE Conv(IF ks[i][4] = "n" THEN "i" ELSE "s", TextOf(c[j]))>>]
      a3 == IF v.txt THEN << <<"Text", TextOf(x)>> >> ELSE << >>
      a4 == IF T = "Hyperlink" /\ XA(x, "r:id") = "" THEN << <<"ID", XA(x, "w:anchor")>> >> ELSE << >>
      ko == SelectSeq(v.k, LAMBDA k : k[4] \notin {"s", "n"})
      tags == TagsOf(v.l)
  IN N(T,
       Attrs(a1 \o a2 \o a3 \o a4),
       Kids([i \in DOMAIN ko |-> <<ko[i][2], ReadKid(ko[i], c)>>]),
       IF v.l = << >> THEN << >>
       ELSE FoldLeft(LAMBDA acc, y : IF y.t \in tags THEN Append(acc, Read(TypeIn(v.l, y.t), y)) ELSE acc, << >>, c))

(* the body of a document.xml: all of its w:body elements *)
ReadDocument(x) ==
  IF x.t # "w:document" THEN << >>
  ELSE FoldLeft(LAMBDA acc, b : IF b.t = "w:body" THEN acc \o Read("Body", b).l ELSE acc, << >>, x.c)

(* ---- the writer: a document that says a given tree ---------------------------- *)
XTxt(s) == [t |-> "#", x |-> s]
XEl(tag, pairs, c) == [t |-> tag, a |-> Attrs(pairs), c |-> c]
(* types that say nothing without their first attribute *)
SaysByAttr == {T \in DOMAIN Vocab : \E U \in DOMAIN Vocab : \E i \in DOMAIN Vocab[U].k : Vocab[U].k[i][3] = T /\ Vocab[U].k[i][4] = "oa"}
RECURSIVE Write(_, _)
Write(tag, n) ==
  LET v == Vocab[n.T]
      pair(i) == LET s == At(n, v.a[i][2]) IN
                 <<v.a[i][1], IF s = "" /\ (v.a[i][3] = "b1" \/ (i = 1 /\ n.T \in SaysByAttr)) THEN "0"
                              ELSE IF n.T = "Hyperlink" /\ v.a[i][2] = "ID" /\ s = At(n, "Anchor") THEN "" ELSE s>>
      kid(k) == CASE k[4] \in {"o", "oa"} -> IF Has(n, k[2]) THEN <<Write(k[1], n.o[k[2]])>> ELSE << >>
                  [] k[4] = "v" -> <<Write(k[1], IF Has(n, k[2]) THEN n.o[k[2]] ELSE Leaf(k[3]))>>
                  [] k[4] \in {"f", "fo"} -> IF Has(n, k[2]) THEN <<EmptyX(k[1])>> ELSE << >>
                  [] OTHER -> IF At(n, k[2]) # "" THEN <<XEl(k[1], << >>, <<XTxt(At(n, k[2]))>>)>> ELSE << >>
      tag2(T) == v.l[CHOOSE i \in DOMAIN v.l : v.l[i][2] = T][1]
      kids == FoldLeft(LAMBDA acc, k : acc \o kid(k), << >>, v.k)
      list == FoldLeft(LAMBDA acc, c : IF c.T = "nil" THEN acc ELSE Append(acc, Write(tag2(c.T), c)), << >>, n.l)
      txt  == IF v.txt /\ At(n, "Text") # "" THEN <<XTxt(At(n, "Text"))>> ELSE << >>
      as   == Attrs([i \in DOMAIN v.a |-> pair(i)])
      zero(q) == IF \E i \in DOMAIN v.a : v.a[i][1] = q /\ v.a[i][3] = "s" THEN "" ELSE "0"
      req  == IF tag \in DOMAIN Required THEN [q \in Required[tag] |-> zero(q)] ELSE EmptyF
  IN [t |-> tag, a |-> as @@ req, c |-> txt \o kids \o list]
WriteDocument(items) == XEl("w:document", << >>, <<Write("w:body", N("Body", EmptyF, EmptyF, items))>>)

(* A tree in the form the reader yields: list entries that are not there say nothing *)
RECURSIVE Clean(_)
Clean(n) == N(n.T, n.a, [k \in DOMAIN n.o |-> Clean(n.o[k])],
              LET s == SelectSeq(n.l, LAMBDA c : c.T # "nil") IN [i \in DOMAIN s |-> Clean(s[i])])
CleanSeq(s) == LET r == SelectSeq(s, LAMBDA c : c.T # "nil") IN [i \in DOMAIN r |-> Clean(r[i])]

(* ---- where two trees differ first, for reports ------------------------------ *)
RECURSIVE DiffSeq(_, _, _)
RECURSIVE Diff(_, _, _)
Diff(p, x, y) ==
  IF x = y THEN ""
  ELSE IF x.T # y.T THEN p \o ": " \o x.T \o " / " \o y.T
  ELSE LET q  == p \o "/" \o x.T
           fa == {f \in DOMAIN x.a \cup DOMAIN y.a : At(x, f) # At(y, f)}
           fo == {f \in DOMAIN x.o \cup DOMAIN y.o : Kid(x, f) # Kid(y, f)}
       IN IF fa # {} THEN LET f == CHOOSE f \in fa : TRUE IN q \o "." \o f \o ": " \o At(x, f) \o " / " \o At(y, f)
          ELSE IF fo # {} THEN LET f == CHOOSE f \in fo : TRUE IN Diff(q \o "." \o f, Kid(x, f), Kid(y, f))
          ELSE DiffSeq(q, x.l, y.l)
DiffSeq(p, s, t) ==
  IF s = t THEN "equal"
  ELSE LET D == {i \in DOMAIN s \cap DOMAIN t : s[i] # t[i]} IN
       IF D # {} THEN LET i == CHOOSE i \in D : \A j \in D : i <= j IN Diff(p \o "[" \o ToString(i) \o "]", s[i], t[i])
       ELSE p \o ": " \o ToString(Len(s)) \o " / " \o ToString(Len(t)) \o " elements"
===============================================================================
