-------------------------------- MODULE River --------------------------------
(***************************************************************************)
(* The observable system: processors that collect subject and clip        *)
(* contours and are asked for boolean combinations of the filled regions.  *)
(*                                                                         *)
(* This is the contract of `river::processor`.  A processor is nothing but *)
(* the two sequences of contours added so far; `Process` is a pure query   *)
(* whose answer is the region                                              *)
(*    Region(p, op, rule) = Combine(op, filled subject, filled clip)       *)
(* and which appends its contours to the sink the caller names.            *)
(***************************************************************************)
EXTENDS Geom

VARIABLES procs      \* live processors: id -> [subj, clip : sequence of contours]
rvars == <<procs>>

Subject == 0   Clip == 1

EmptyProc == [subj |-> <<>>, clip |-> <<>>]
Live == DOMAIN procs

RInit == procs = << >>      \* the function with empty domain

New(p) ==
  /\ p \notin Live
  /\ procs' = [q \in Live \cup {p} |-> IF q = p THEN EmptyProc ELSE procs[q]]

\* contours without any edge are ignored by the semantics (they wind nowhere)
Add(p, ty, cs) ==
  /\ p \in Live
  /\ procs' = [procs EXCEPT ![p] =
       IF ty = Subject THEN [@ EXCEPT !.subj = @ \o cs] ELSE [@ EXCEPT !.clip = @ \o cs]]

Process(p, op, rule) ==
  /\ p \in Live
  /\ UNCHANGED procs

Destroy(p) ==
  /\ p \in Live
  /\ procs' = [q \in Live \ {p} |-> procs[q]]

(* ------------------------------ meaning ------------------------------- *)
WindOf(cs, pt) == Wind(EdgesOfAll(cs), pt)
RegionAt(S, C, op, rule, pt) == Combine(op, Filled(rule, WindOf(S, pt)), Filled(rule, WindOf(C, pt)))
=============================================================================
