-------------------------------- MODULE Flat --------------------------------
(* Concatenation of long sequences of sequences, by halves.                  *)
EXTENDS Integers, Sequences, SequencesExt

RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) <= 64 THEN FlattenSeq(ss)
            ELSE LET h == Len(ss) \div 2 IN Flat(SubSeq(ss, 1, h)) \o Flat(SubSeq(ss, h + 1, Len(ss)))
=============================================================================
