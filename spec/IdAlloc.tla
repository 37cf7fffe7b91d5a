--------------------------------- MODULE IdAlloc ---------------------------------
(* The counter behind IncreaseID, asked by several goroutines: lock, read, write,  *)
(* unlock.  The guarantee is the one that recorded histories of the real counter   *)
(* are judged by (Steps!FCounter), stated over start and end of each call.         *)
EXTENDS Steps
CONSTANTS Threads, Calls,
          Flaws  \* {} in the checks; "nolock", "early" (unlock between read and write), "skip", for trying out the guarantee
VARIABLES pc, lock, num, reg, clock, started, hist
NoOne == 0
Init ==
  /\ pc = [t \in 1..Threads |-> "idle"] /\ lock = NoOne /\ num = 0 /\ reg = [t \in 1..Threads |-> 0]
  /\ clock = 0 /\ started = [t \in 1..Threads |-> 0] /\ hist = [t \in 1..Threads |-> << >>]
Enter(t) ==
  /\ pc[t] = "idle" /\ Len(hist[t]) < Calls
  /\ clock' = clock + 1 /\ started' = [started EXCEPT ![t] = clock'] /\ pc' = [pc EXCEPT ![t] = "lock"]
  /\ UNCHANGED <<lock, num, reg, hist>>
Lock(t) ==
  /\ pc[t] = "lock" /\ ("nolock" \in Flaws \/ lock = NoOne)
  /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<num, reg, clock, started, hist>>
Fetch(t) ==
  /\ pc[t] = "read" /\ reg' = [reg EXCEPT ![t] = num + (IF "skip" \in Flaws /\ num = 2 THEN 2 ELSE 1)]
  /\ pc' = [pc EXCEPT ![t] = "write"] /\ lock' = IF "early" \in Flaws THEN NoOne ELSE lock
  /\ UNCHANGED <<num, clock, started, hist>>
Store(t) ==
  /\ pc[t] = "write" /\ num' = reg[t] /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<lock, reg, clock, started, hist>>
Unlock(t) ==
  /\ pc[t] = "unlock" /\ lock' = NoOne /\ pc' = [pc EXCEPT ![t] = "return"] /\ UNCHANGED <<num, reg, clock, started, hist>>
Return(t) ==
  /\ pc[t] = "return" /\ clock' = clock + 1 /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ hist' = [hist EXCEPT ![t] = Append(@, [s |-> started[t], e |-> clock', v |-> reg[t]])]
  /\ UNCHANGED <<lock, num, reg, started>>
Next == \E t \in 1..Threads : Enter(t) \/ Lock(t) \/ Fetch(t) \/ Store(t) \/ Unlock(t) \/ Return(t)
vars == <<pc, lock, num, reg, clock, started, hist>>
Spec == Init /\ [][Next]_vars
View0 == vars
History == FoldLeft(LAMBDA acc, h : acc \o h, << >>, hist)
Idle == \A t \in 1..Threads : pc[t] = "idle"
(* whenever nobody is inside, the history is one that the counter may have *)
Accepts == Idle => FCounter([q |-> [calls |-> History]]) = {}
(* and the order of the numbers is a linearization: a witness of atomicity *)
Linearizable == Idle => \A i, j \in DOMAIN History : History[i].v < History[j].v => History[i].s < History[j].e
===================================================================================
