SPECIFICATION Spec
INVARIANT Conforms
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
CONSTANTS NB = 32
 NI = 64
 W = 4
