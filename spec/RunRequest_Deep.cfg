SPECIFICATION Spec
CONSTANTS T = 4 MaxReq = 3 MaxN = 3
INVARIANTS NeverContradicted SavedFall FormsAgree
PROPERTIES RefusedChangesNothing ClockFalls
CHECK_DEADLOCK FALSE
