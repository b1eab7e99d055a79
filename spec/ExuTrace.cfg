SPECIFICATION Spec
CONSTANTS
  MulLat = 2
  DivLat = 18
  FAddLat = 5
  FMulLat = 3
  FDivLat = 10
  FCvtLat = 3
INVARIANT Conforms
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
