SPECIFICATION Spec
CONSTANTS K = 3
LX = 3
LY = 3
INVARIANTS Keeps Result
PROPERTIES Progress
