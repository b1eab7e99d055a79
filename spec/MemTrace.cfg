SPECIFICATION Spec
INVARIANT Conforms
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
