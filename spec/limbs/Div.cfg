SPECIFICATION Spec
CONSTANTS K = 2
LA = 4
LB = 3
INVARIANTS Rest Result Knuth Witness
