SPECIFICATION Spec
CONSTANTS K = 7
G = 2
N = 2
INVARIANTS Holds Result
