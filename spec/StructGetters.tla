---- MODULE StructGetters ----
(* C08 for the real classes Structure and Trajectory: Getters with the graph of StructGraph. *)
EXTENDS Getters
====
