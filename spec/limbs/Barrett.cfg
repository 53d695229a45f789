SPECIFICATION Spec
CONSTANTS K = 2
KL = 2
XL = 2
INVARIANTS Holds Result Few Witness
