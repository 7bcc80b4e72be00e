----------------------------- MODULE MCScanner -----------------------------
EXTENDS Scanner, TLC
CONSTANTS Alphabet, MaxLen
MCInit == \E n \in 0..MaxLen : \E t \in [1..n -> Alphabet] : \E f \in BOOLEAN : \E cut \in BOOLEAN :
             ScanInit(IF cut THEN Append(t, "TR") ELSE t, f)
MCSpec == MCInit /\ [][ScanNext]_svars
=============================================================================
