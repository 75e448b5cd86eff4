SPECIFICATION Spec
CONSTANTS MaxB = 3 
 MaxHits = 3
INVARIANTS Complete Ordered Slices Contig Fair ScanOk
CHECK_DEADLOCK FALSE
