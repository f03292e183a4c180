------------------------------- MODULE Transfer -------------------------------
(***************************************************************************)
(* What the operating system may do with the transfers of a session and of *)
(* a reader: take or give fewer bytes than asked, interrupt the transfer,  *)
(* fail, or be the last thing that happens to the process.                 *)
(*                                                                         *)
(* The program is a sequence of items; each stores some bytes at a place   *)
(* or loads some (the header in blocks, one after the other without a      *)
(* seek; values with a seek).  An item is done when all its bytes are      *)
(* transferred.  Invariants: a call that returns has transferred all of    *)
(* its bytes and loads what is stored; only a failure is reported as one,  *)
(* and it always is; when the process stops, what the calls that had       *)
(* returned have stored is there, and nothing of later ones.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOdd,   \* number of transfers that are not complete at once
          Fatal,    \* may transfers fail, may the process stop?
          Bugs, Emit

St(p, d) == [w |-> TRUE, pos |-> p, len |-> Len(d), d |-> d, seek |-> TRUE]
Ld(p, n, s) == [w |-> FALSE, pos |-> p, len |-> n, d |-> <<>>, seek |-> s]
\* the header, two values, a value that closing fills; then the header in blocks of two bytes, the values
Items == << St(0, <<11, 12, 13>>), St(3, <<21, 22>>), St(5, <<31>>), St(6, <<41, 42>>),
            Ld(0, 2, TRUE), Ld(2, 2, FALSE), Ld(3, 2, TRUE), Ld(5, 3, TRUE) >>
Size == 8
Writes == {i \in 1..Len(Items) : Items[i].w}

VARIABLES disk,   \* position -> byte (0: nothing)
          cur,    \* the position in the file
          pc, done, \* the item under way, how many of its bytes are transferred
          mem,    \* what each item has loaded
          st,     \* "run", "ok", "err", "stop"
          failed, \* did a transfer fail?
          odd, sched
vars == <<disk, cur, pc, done, mem, st, failed, odd, sched>>

Zeros(n) == [k \in 1..n |-> 0]
Init == /\ disk = [p \in 0..(Size - 1) |-> 0] /\ cur = 0 /\ pc = 1 /\ done = 0 /\ st = "run" /\ failed = FALSE /\ odd = 0 /\ sched = <<>>
        /\ mem = [i \in 1..Len(Items) |-> IF Items[i].w THEN <<>> ELSE Zeros(Items[i].len)]

It == Items[pc]
Rest == It.len - done
At == IF done = 0 /\ It.seek THEN It.pos ELSE cur

Note(a) == sched' = IF Emit THEN Append(sched, a) ELSE sched
Odd == odd < MaxOdd /\ odd' = odd + 1

\* k bytes are transferred
Moved(k) ==
    /\ disk' = IF It.w THEN [p \in DOMAIN disk |-> IF p >= At /\ p < At + k THEN It.d[done + (p - At) + 1] ELSE disk[p]] ELSE disk
    /\ mem' = IF It.w THEN mem
              ELSE [mem EXCEPT ![pc] = [j \in 1..It.len |-> IF j > done /\ j <= done + k THEN (IF At + j - done - 1 < Size THEN disk[At + j - done - 1] ELSE 0) ELSE @[j]]]
    /\ cur' = At + k
Advance(k) ==
    LET whole == k = Rest \/ (It.w /\ "single" \in Bugs) \/ (~ It.w /\ "count" \in Bugs)
    IN /\ pc' = IF whole THEN pc + 1 ELSE pc
       /\ done' = IF whole THEN 0 ELSE done + k
       /\ st' = IF whole /\ pc = Len(Items) THEN "ok" ELSE "run"

Transfer(k) ==
    /\ Moved(k) /\ Advance(k) /\ UNCHANGED failed
    /\ IF k = Rest THEN UNCHANGED odd /\ Note(0) ELSE Odd /\ Note(IF k = 1 THEN 2 ELSE 1)

Interrupted ==
    /\ Odd /\ Note(4)
    /\ st' = IF "eintr" \in Bugs THEN "err" ELSE "run"
    /\ UNCHANGED <<disk, cur, pc, done, mem, failed>>

Fails ==
    /\ Fatal /\ Odd /\ Note(IF It.w THEN 6 ELSE 5) /\ failed' = TRUE
    /\ IF "swallow" \in Bugs THEN Advance(Rest) ELSE st' = "err" /\ UNCHANGED <<pc, done>>
    /\ UNCHANGED <<disk, cur, mem>>

Stops(k) ==
    /\ Fatal /\ It.w /\ Odd /\ Note(IF k = 0 THEN 7 ELSE 8)
    /\ Moved(k) /\ st' = "stop"
    /\ UNCHANGED <<pc, done, failed>>

Next == /\ st = "run"
        /\ \/ \E k \in 1..Rest : Transfer(k)
           \/ Interrupted
           \/ Fails
           \/ \E k \in 0..(Rest - 1) : Stops(k)
        /\ IF Emit /\ st' # "run" THEN PrintT("SCHED " \o ToJson(sched')) ELSE TRUE

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Stored(i) == \A k \in 1..Items[i].len : disk[Items[i].pos + k - 1] = Items[i].d[k]
Nothing(i) == \A k \in 1..Items[i].len : disk[Items[i].pos + k - 1] = 0
Final == [p \in 0..(Size - 1) |-> LET i == CHOOSE j \in Writes : Items[j].pos <= p /\ p < Items[j].pos + Items[j].len IN Items[i].d[p - Items[i].pos + 1]]

\* C20, C21: what has returned is stored, what was loaded is what is stored
ReturnedIsStored == \A i \in Writes : i < pc => Stored(i)
LoadedIsStored == \A i \in (1..Len(Items)) \ Writes : i < pc => \A k \in 1..Items[i].len : mem[i][k] = Final[Items[i].pos + k - 1]
\* C21: parts and interruptions are not failures
OnlyFailures == st = "err" => failed
\* C20
FailureReported == failed => st = "err"
\* C15
StopIsClean == st = "stop" => \A i \in Writes : i > pc => Nothing(i)
=============================================================================
