---------------------------- MODULE FrameTrace ----------------------------
(***************************************************************************)
(* Judges recorded response bytes (VRF_CASES: sequence of [api, corr,      *)
(* raw]) by Frames.                                                        *)
(***************************************************************************)
EXTENDS Frames, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VRF_CASES)

VARIABLE cursor    \* (a name of its own: TLC does not cache constants that bind the name of a variable)
Init == cursor = 0
Next == cursor < Len(Cases) /\ cursor' = cursor + 1
Spec == Init /\ [][Next]_cursor

Judge == cursor > 0 => LET v == Check(Cases[cursor].api, Cases[cursor].corr, Cases[cursor].raw)
                  IN v = "ok" \/ PrintT("VRF-BAD " \o ToJson([i |-> cursor, why |-> v]))

\* the checksum itself: the reference values of CRC-32
ASSUME Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<203, 244, 57, 38>>
ASSUME Crc(<<>>) = <<0, 0, 0, 0>>
============================================================================
