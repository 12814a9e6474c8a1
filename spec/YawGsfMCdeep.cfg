SPECIFICATION Spec
INVARIANTS Sound Weights One Bounded Spaced Covered Even
CHECK_DEADLOCK FALSE
CONSTANTS
 Limit = 1
 Circle = 20
 Sec = 1000000
 Levels = 13
 Wild = TRUE
