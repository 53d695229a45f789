SPECIFICATION Spec
CONSTANTS K = 2
LIM = 140
INVARIANTS Sums Order
