SPECIFICATION Spec
CONSTANTS MaxArgs = 6 Pool <- Args
INVARIANTS Shape
PROPERTY MadeOnlyLegal
CHECK_DEADLOCK FALSE
