------------------------------- MODULE Claim -------------------------------
EXTENDS Integers, FiniteSets
(* The race for a free name: check and claim are one step (Atomic) or two. *)
CONSTANTS Atomic, Racers
VARIABLES pc, owner, told
vars == <<pc, owner, told>>
Init == pc = [p \in Racers |-> "start"] /\ owner = 0 /\ told = [p \in Racers |-> ""]
Next == \E p \in Racers :
    \/ /\ pc[p] = "start" /\ ~Atomic
       /\ pc' = [pc EXCEPT ![p] = IF owner = 0 THEN "free" ELSE "end"]
       /\ told' = IF owner = 0 THEN told ELSE [told EXCEPT ![p] = "refused"]
       /\ UNCHANGED owner
    \/ /\ pc[p] = "free" /\ pc' = [pc EXCEPT ![p] = "end"] /\ owner' = p /\ told' = [told EXCEPT ![p] = "won"]
    \/ /\ pc[p] = "start" /\ Atomic
       /\ pc' = [pc EXCEPT ![p] = "end"]
       /\ IF owner = 0 THEN owner' = p /\ told' = [told EXCEPT ![p] = "won"]
                       ELSE told' = [told EXCEPT ![p] = "refused"] /\ UNCHANGED owner
OneWinner == Cardinality({p \in Racers : told[p] = "won"}) <= 1
AllTold == (\A p \in Racers : pc[p] = "end") =>
              /\ Cardinality({p \in Racers : told[p] = "won"}) = 1
              /\ \A p \in Racers : told[p] # "" /\ (told[p] = "won" <=> owner = p)
=============================================================================
