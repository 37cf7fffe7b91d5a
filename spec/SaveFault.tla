-------------------------------- MODULE SaveFault --------------------------------
(* Saving as a protocol of small steps - open the parts, copy them piece by piece  *)
(* to the writer, write the directory, close the parts - with a fault at any step.  *)
(* TLC explores all fault schedules of a few saves with changes in between, checks  *)
(* what a save has to guarantee, and writes the schedules out; the driver imposes   *)
(* them on the real library (harness/script.go).                                    *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Parts,   \* number of parts that are read from outside while saving
          Chunks,  \* pieces of a part
          Steps,   \* length of the sequences of saves and changes
          Full,    \* all places of the fault or the interesting ones
          Flaws,   \* flaws of the protocol, for trying out the invariants: {} in the checks
          Emit
VARIABLES log,     \* the saves (with their fault) and changes so far
          pc,      \* "idle", "open", "copy", "dir"
          fault,   \* the fault of the running save
          hit,     \* whether it happened
          opened,  \* parts that are open
          pos,     \* pieces copied of every part
          sent,    \* pieces given to the writer
          dst,     \* what the writer took
          res,     \* outcome of the last save
          version  \* how often the document was changed

Own == 0                        \* the document itself, which is not read from outside
All == 0..Parts
Total == (Parts + 1) * Chunks + 1
Dir == <<"directory">>
None == [on |-> "none", part |-> 0, at |-> 0, kind |-> ""]
ReadAts == IF Full THEN 0..Chunks ELSE {0, 1, Chunks}
WriteAts == IF Full THEN 0..(Total - 1) ELSE {0, 1, Total \div 2, Total - 2, Total - 1}
Fault == {None}
  \cup [on : {"open"}, part : 1..Parts, at : {0}, kind : {"missing", "denied"}]
  \cup [on : {"read"}, part : 1..Parts, at : ReadAts, kind : {"fail", "eof"}]   \* eof: an error that resembles the end of the file
  \cup [on : {"slow"}, part : 1..Parts, at : {0}, kind : {"bytes", "zero", "dataeof"}]  \* no fault: an unusual but correct reader
  \cup [on : {"write"}, part : {0}, at : WriteAts, kind : {"fail", "short", "transient", "shortonce", "late"}]

Piece(p, k) == <<p, k, IF p = Own THEN version ELSE 0>>
Complete == Len(dst) = Total /\ dst[Total] = Dir
            /\ \A p \in All : SelectSeq(dst, LAMBDA x : x # Dir /\ x[1] = p) = [k \in 1..Chunks |-> Piece(p, k)]

Init == /\ log = << >> /\ pc = "idle" /\ fault = None /\ hit = FALSE /\ opened = {}
        /\ pos = [p \in All |-> 0] /\ sent = 0 /\ dst = << >> /\ res = "" /\ version = 0

Script(l) == Emit => PrintT("SCRIPT " \o ToJson([calls |-> <<[op |-> "FaultDoc", d |-> "d1", p |-> << >>, x |-> <<"themed">>, q |-> [z |-> 0]]>> \o l]))
Call(op, q) == [op |-> op, d |-> "d1", p |-> << >>, x |-> << >>, q |-> q]

Change == /\ pc = "idle" /\ Len(log) < Steps /\ Len(log) > 0 /\ log[Len(log)].op # "FaultEdit"
          /\ version' = version + 1
          /\ log' = Append(log, Call("FaultEdit", None))
          /\ Script(log')
          /\ res' = "" /\ UNCHANGED <<pc, fault, hit, opened, pos, sent, dst>>
Begin == /\ pc = "idle" /\ Len(log) < Steps
         /\ fault' \in Fault
         /\ log' = Append(log, Call("FaultSave", [chunks |-> Chunks, total |-> Total - 1] @@ fault'))
         /\ pc' = "open" /\ opened' = {} /\ pos' = [p \in All |-> 0] /\ sent' = 0 /\ dst' = << >> /\ hit' = FALSE /\ res' = ""
         /\ Script(log')
         /\ UNCHANGED version
End(r) == /\ res' = r /\ pc' = "idle" /\ opened' = IF "leak" \in Flaws /\ r = "err" THEN opened ELSE {}
OpenPart == /\ pc = "open"
            /\ LET p == Cardinality(opened) + 1 IN
               IF p > Parts THEN pc' = "copy" /\ UNCHANGED <<opened, res, hit>>
               ELSE IF fault.on = "open" /\ fault.part = p
                    THEN hit' = TRUE /\ IF "skip" \in Flaws THEN opened' = opened \cup {p} /\ UNCHANGED <<pc, res>> ELSE End("err")
                    ELSE opened' = opened \cup {p} /\ UNCHANGED <<pc, res, hit>>
            /\ UNCHANGED <<log, fault, pos, sent, dst, version>>
(* the writer gets a piece; what it takes and what it says *)
Write(x) ==
  LET k == fault.kind
      here == fault.on = "write" /\ (IF k \in {"transient", "shortonce"} THEN sent = fault.at ELSE sent >= fault.at)
      takes == ~here \/ (k = "late" /\ sent = fault.at)
      says == IF ~here THEN "ok" ELSE IF k = "shortonce" \/ (k = "short" /\ sent = fault.at) THEN "short" ELSE "err"
      stops == says = "err" \/ (says = "short" /\ "short" \notin Flaws)
  IN /\ sent' = sent + 1
     /\ dst' = IF takes THEN Append(dst, x) ELSE dst
     /\ hit' = (hit \/ here)
     /\ IF stops THEN End("err")
        ELSE IF x = Dir THEN End("ok")
        ELSE UNCHANGED <<res, opened>> /\ pc' = "copy"
(* the parts are copied one after the other, in any order *)
Copy == /\ pc = "copy"
        /\ LET begun == {p \in All : pos[p] \in 1..(Chunks - 1)}
               todo  == {p \in All : pos[p] < Chunks} IN
           IF todo = {} THEN pc' = "dir" /\ UNCHANGED <<pos, sent, dst, res, opened, hit>>
           ELSE \E p \in IF begun # {} THEN begun ELSE todo :
                  LET r == fault.on = "read" /\ fault.part = p
                      fails == r /\ (fault.at = pos[p] \/ (fault.at = Chunks /\ pos[p] = Chunks - 1)) IN
                  IF fails
                  THEN IF "read" \in Flaws \/ ("eof" \in Flaws /\ fault.kind = "eof")
                       THEN hit' = TRUE /\ pos' = [pos EXCEPT ![p] = Chunks] /\ UNCHANGED <<pc, sent, dst, res, opened>>
                       ELSE hit' = TRUE /\ End("err") /\ UNCHANGED <<pos, sent, dst>>
                  ELSE Write(Piece(p, pos[p] + 1)) /\ pos' = [pos EXCEPT ![p] = @ + 1]
        /\ UNCHANGED <<log, fault, version>>
Directory == pc = "dir" /\ Write(Dir) /\ UNCHANGED <<log, fault, pos, version>>
Next == Change \/ Begin \/ OpenPart \/ Copy \/ Directory
vars == <<log, pc, fault, hit, opened, pos, sent, dst, res, version>>
Spec == Init /\ [][Next]_vars /\ WF_vars(OpenPart \/ Copy \/ Directory)
View0 == vars

(* ------------------------------------------------------------------ guarantees -- *)
SuccessIsComplete == res = "ok" => Complete
FaultIsReported == (res # "" /\ hit /\ fault.kind # "late") => res = "err"
NothingIsLeftOpen == pc = "idle" => opened = {}
GoodSaveSucceeds == (res # "" /\ fault.on \in {"none", "slow"}) => res = "ok"
\* every save ends
Ends == pc # "idle" ~> pc = "idle"
===================================================================================
