SPECIFICATION Spec
VIEW View
INVARIANTS CarriesLast Encodes Texts
CONSTANTS Names = {"a", "b"}
 MaxPr = 2
CHECK_DEADLOCK FALSE
