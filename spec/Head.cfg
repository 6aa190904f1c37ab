SPECIFICATION Spec
INVARIANT Round
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "b"}
  Forms = {"lower", "mixed"}
  Values = {"plain"}
  Kinds = {"ok", "badval", "sp"}
  MaxLines = 2
