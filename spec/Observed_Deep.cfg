SPECIFICATION Spec
CONSTANTS NC = 3 NA = 2 MaxSaves = 1
INVARIANTS Agree FilesAgree InRegion
PROPERTY StepLocal
CHECK_DEADLOCK FALSE
