------------------------------ MODULE General ------------------------------
(* General purpose compressors: encode() makes a piece of bytes of a source,   *)
(* decode() gives the source back.  Each says how many bytes it wrote, or 0    *)
(* where it could not; neither ever writes beyond the room it was given, and   *)
(* nothing done with a compressor before changes what it does next.            *)
EXTENDS Naturals, Sequences
\* room enough for any source of n bytes, however badly it compresses
Roomy(n, limit) == limit >= n + n \div 32 + 1024
EncodeOk(n, limit, got, past) == past = 0 /\ got <= limit /\ (Roomy(n, limit) => got > 0)
\* cut: the bytes missing from the end of the piece; hurt: some bytes of it were changed
DecodeOk(n, room, cut, hurt, got, same, past) ==
  /\ past = 0 /\ got <= room
  /\ (~hurt /\ cut = 0) => (IF room >= n THEN got = n /\ same ELSE got = 0)
  /\ (~hurt /\ cut > 0) => got = 0
=============================================================================
