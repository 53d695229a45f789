SPECIFICATION Spec
CONSTANTS K = 2
T = 4
LL = 4
LR = 4
INVARIANTS Product Squared
