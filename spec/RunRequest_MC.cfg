SPECIFICATION Spec
CONSTANTS T = 3 MaxReq = 2 MaxN = 2
INVARIANTS NeverContradicted SavedFall FormsAgree
PROPERTIES RefusedChangesNothing ClockFalls
CHECK_DEADLOCK FALSE
