----------------------------- MODULE WireTrace -----------------------------
(***************************************************************************)
(* Judges what the implementation's encoder and decoder did with typed     *)
(* values (VRF_CASES: a file with a sequence of records): the bytes must   *)
(* be those of Enc, every decoded value the one that was encoded, and Dec  *)
(* has to agree.                                                           *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VRF_CASES)

VARIABLE cursor    \* (a name of its own: TLC does not cache constants that bind the name of a variable)
Init == cursor = 0
Next == cursor < Len(Cases) /\ cursor' = cursor + 1
Spec == Init /\ [][Next]_cursor

Encoded(c) == c.enc = Enc(c.ty, c.v)
Decoded(c) == \A j \in DOMAIN c.decs : c.decs[j].next = Len(c.enc) /\ c.decs[j].v = c.v
Model(c) == Dec(c.ty, c.enc, 1) = Ok(c.v, Len(c.enc) + 1)

Verdict(c) == IF ~Encoded(c) THEN "encoded" ELSE IF ~Decoded(c) THEN "decoded" ELSE IF ~Model(c) THEN "model" ELSE "ok"
Judge == cursor > 0 => LET v == Verdict(Cases[cursor])
                  IN v = "ok" \/ PrintT("VRF-BAD " \o ToJson([i |-> cursor, why |-> v]))
============================================================================
