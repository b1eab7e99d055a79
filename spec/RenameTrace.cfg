SPECIFICATION Spec
CONSTANT NP = 64
INVARIANT Conforms
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
