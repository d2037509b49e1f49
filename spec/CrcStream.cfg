SPECIFICATION Spec
CONSTANT N = 4
CONSTANT Alphabet = {0, 1, 128, 255}
CONSTANT W = 15
VIEW View
INVARIANT SplitFree
INVARIANT Detects
