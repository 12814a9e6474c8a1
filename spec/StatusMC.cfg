SPECIFICATION Spec
INVARIANTS Absolute Relative Constant Predicted Faulty Documented Tells
CHECK_DEADLOCK FALSE
