SPECIFICATION Spec
CONSTANTS MaxArgs = 4 Pool <- Args
INVARIANTS Shape
PROPERTY MadeOnlyLegal
CHECK_DEADLOCK FALSE
