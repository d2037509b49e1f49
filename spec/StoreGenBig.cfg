SPECIFICATION Spec
CONSTANT D = 5
