SPECIFICATION Spec
CONSTANTS K = 4
N = 2
LIM = 255
SH = 14
Mode = "one"
INVARIANTS Numbers Shifts BitwiseOps Encodings Lengths
