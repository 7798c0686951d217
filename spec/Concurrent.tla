----------------------------- MODULE Concurrent -----------------------------
(* Threads with jobs of their own and tables that are made by whoever needs them  *)
(* first.  A job is: ask for the tables; if nobody has begun to make them, make   *)
(* them entry by entry; if somebody else is making them, wait; then look entries  *)
(* up one by one.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads,      \* 1..n
          Entries,      \* of the tables
          Lookups       \* of each job

VARIABLES
    table,      \* entries that have been made, in order
    maker,      \* 0 nobody yet, t while thread t makes them, -1 when they are made
    pc, got     \* of each thread

cvars == <<table, maker, pc, got>>

CInit == table = <<>> /\ maker = 0 /\ pc = [t \in Threads |-> "ask"] /\ got = [t \in Threads |-> <<>>]

Ask(t) == /\ pc[t] = "ask"
          /\ \/ maker = 0 /\ maker' = t /\ pc' = [pc EXCEPT ![t] = "make"]
             \/ maker = -1 /\ maker' = maker /\ pc' = [pc EXCEPT ![t] = "look"]
          /\ UNCHANGED <<table, got>>
Make(t) == /\ pc[t] = "make"
           /\ IF Len(table) < Entries THEN table' = Append(table, Len(table) + 1) /\ UNCHANGED <<maker, pc>>
              ELSE maker' = -1 /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED table
           /\ UNCHANGED got
\* thread t looks for entry number t, and the following ones
Wanted(t, k) == ((t + k) % Entries) + 1
Found(tab, e) == \E i \in 1..Len(tab) : tab[i] = e
Look(t) == /\ pc[t] = "look"
           /\ got' = [got EXCEPT ![t] = Append(@, IF Found(table, Wanted(t, Len(@))) THEN Wanted(t, Len(@)) ELSE 0)]
           /\ pc' = [pc EXCEPT ![t] = IF Len(got[t]) + 1 = Lookups THEN "done" ELSE @]
           /\ UNCHANGED <<table, maker>>
Step(t) == Ask(t) \/ Make(t) \/ Look(t)
Waiting(t) == pc[t] = "ask" /\ maker > 0

---------------------------------------------------------------------------
\* what a thread finds on its own
Alone(t) == [k \in 1..Lookups |-> Wanted(t, k - 1)]
SameAsAlone == \A t \in Threads : pc[t] = "done" => got[t] = Alone(t)
\* the tables are made once
Once == \A i, j \in 1..Len(table) : i # j => table[i] # table[j]
\* nobody changes them when they are in use
Whole == (\E t \in Threads : pc[t] = "look") => Len(table) = Entries
\* somebody can always go on
NoDeadlock == (\A t \in Threads : pc[t] = "done") \/ \E t \in Threads : pc[t] # "done" /\ ~Waiting(t)
=============================================================================
