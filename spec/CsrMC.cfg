SPECIFICATION Spec
INVARIANTS Views Legal Irq Unmaskable Undo
PROPERTY Held
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Writes <- MCWrites
  Lines <- MCLines
  Deleg <- MCDeleg
