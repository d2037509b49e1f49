SPECIFICATION Spec
CONSTANT D = 3
