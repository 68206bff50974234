----------------------------- MODULE ScarceTools -----------------------------
(***************************************************************************)
(* The command line programs among all reactions of the line, where memory *)
(* may be refused at any moment: a program that ends well achieved what it *)
(* achieves when memory abounds, and one that fails announced nothing.     *)
(***************************************************************************)
EXTENDS ToolModel
SSpec == Init /\ [][Next \/ Starve(TRUE) \/ GiveUp(TRUE)]_vars
Well == Done /\ (Ex.rc = 0 \/ Ex.doc.ok \/ Ex.out # "")
Means == Well => (SetRight /\ ReadRight /\ ReadAllRight /\ CommandRight)
Silent == (Done /\ ~Well) => Ex.rc = 1
=============================================================================
