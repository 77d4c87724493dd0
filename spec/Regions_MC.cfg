SPECIFICATION Spec
CONSTANTS W = 4 H = 2 D = 3
INVARIANTS FacesRight EmptyOnlyIfNoCore NodesFit EdgesFit
PROPERTIES SubIsInside
CHECK_DEADLOCK FALSE
