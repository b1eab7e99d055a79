SPECIFICATION Spec
INVARIANT Conforms

ALIAS Alias
CHECK_DEADLOCK FALSE
