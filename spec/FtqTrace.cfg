SPECIFICATION Spec
INVARIANT Conforms
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
CONSTANTS NB = 16
 NI = 32
 W = 2
