SPECIFICATION Spec
INVARIANT NotFlagged
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
