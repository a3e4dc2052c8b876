------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Skeleton shared by the trace specifications: one record per execution   *)
(* of the real code (or one event sequence), read from $TRACE, walked in   *)
(* NChunks independent chunks so that TLC's workers share the load.        *)
(*                                                                         *)
(* A trace specification defines Fails(r), the set of clauses record r     *)
(* breaks (empty: r is a behaviour of the specification).  Verdicts are    *)
(* total: a record is never skipped, and TLC stopping early is an error.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT NChunks

Recs == ndJsonDeserialize(IOEnv.TRACE)
NRecs == Len(Recs)
ChunkLo(c) == ((c - 1) * NRecs) \div NChunks + 1
ChunkHi(c) == (c * NRecs) \div NChunks

Has(r, f) == f \in DOMAIN r
Say(r, clauses) ==
  \A c \in clauses : PrintT("FAIL|" \o ToString(r.id) \o "|" \o c \o "|" \o
                            (IF Has(r, "err") THEN r.err ELSE ""))
SayChunk(c) == PrintT("CHUNK|" \o ToString(c) \o "|" \o ToString(ChunkHi(c) - ChunkLo(c) + 1))
=============================================================================
