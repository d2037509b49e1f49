SPECIFICATION Spec
CONSTANT Keys = {1, 2}
CONSTANT Modes = {1, 3}
CONSTANT Salts = {0, 1}
CONSTANT Nums = {1, 2}
CONSTANT Nonces = {1, 2}
CONSTANT Nodes = {1, 2}
CONSTANT MaxMade = 2
CONSTANT Reset = TRUE
INVARIANT Authentic
INVARIANT NoReuse
INVARIANT Lossless
