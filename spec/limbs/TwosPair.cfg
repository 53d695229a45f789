SPECIFICATION Spec
CONSTANTS K = 4
N = 2
LIM = 80
SH = 0
Mode = "pair"
INVARIANTS Numbers Shifts BitwiseOps Encodings Lengths
