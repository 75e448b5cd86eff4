SPECIFICATION Spec
CONSTANTS MaxB = 4 
 MaxHits = 5
INVARIANTS Complete Ordered Slices Contig Fair ScanOk
CHECK_DEADLOCK FALSE
