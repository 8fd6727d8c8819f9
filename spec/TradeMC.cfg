SPECIFICATION MCSpec
CONSTANTS
  ASPECTS = {"life", "entry", "exit", "long", "short", "size"}
  LEN = 4
  PRICES = {4, 6, 8}
  GAPS = {0}
INVARIANTS TypeOK FreshIsPrevailing LongFunded Extremes SideFollowsAdvice ShortBounded
PROPERTIES OnlyOneStep OpensAreFresh Constants NotSameCandle CashMoves
CHECK_DEADLOCK TRUE
