-------------------------------- MODULE Chunk --------------------------------
(***************************************************************************)
(* Chunk sizes (C23).  A valid chunk size never shows in the answer: the   *)
(* chunked calls are judged by the same clauses as the unchunked ones      *)
(* (Reach, Weighted, Cluster).  What is left is the refusal of chunk sizes *)
(* that mean nothing.                                                      *)
(***************************************************************************)
EXTENDS Outcome

ChunkVerdict(nn, e) == If((NV(nn.g) = 0 /\ e.o.k # "exc") \/ Raises(e.o, {"TypeError", "ValueError"}), "chunk.invalid-accepted")
ChunkOps == {"chunk_bad"}
=============================================================================
