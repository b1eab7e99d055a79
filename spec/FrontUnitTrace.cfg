SPECIFICATION Spec
CONSTANT FW = 4
INVARIANT Conforms
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
