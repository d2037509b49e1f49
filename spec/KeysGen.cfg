SPECIFICATION Spec
CONSTANT D = 2
