CONSTANTS Sizes = {1, 2, 17, 30000}
SPECIFICATION Spec
INVARIANTS Compose Slices Emitted
CHECK_DEADLOCK FALSE
