SPECIFICATION Spec
CONSTANTS Max = 4  Track = {"q", "mb", "w"}
INVARIANTS NonNeg AllSettled Unused Limited
CHECK_DEADLOCK FALSE
