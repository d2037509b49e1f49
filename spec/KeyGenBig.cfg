SPECIFICATION Spec
CONSTANT D = 4
