SPECIFICATION Spec
CONSTANTS NC = 2 NA = 3 MaxSaves = 1
INVARIANTS Agree FilesAgree InRegion
PROPERTY StepLocal
CHECK_DEADLOCK FALSE
