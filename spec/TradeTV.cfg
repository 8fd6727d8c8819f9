SPECIFICATION TVSpec
CONSTANTS
  ASPECTS = {"life", "entry", "exit", "long", "short", "size"}
INVARIANTS TypeOK FreshIsPrevailing Extremes
CHECK_DEADLOCK TRUE
