-------------------------------- MODULE Base --------------------------------
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
=============================================================================
