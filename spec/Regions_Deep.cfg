SPECIFICATION Spec
CONSTANTS W = 4 H = 3 D = 2
INVARIANTS FacesRight EmptyOnlyIfNoCore NodesFit EdgesFit
PROPERTIES SubIsInside
CHECK_DEADLOCK FALSE
