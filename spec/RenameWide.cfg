SPECIFICATION Spec
CONSTANT NP = 160
INVARIANT Conforms
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
