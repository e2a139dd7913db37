SPECIFICATION Spec
VIEW View
INVARIANTS ExportVerifies ExportIffSigned
PROPERTIES SignedIsCurrent NoForgery OnlyTheCa
CHECK_DEADLOCK FALSE
CONSTANT Wide = FALSE
