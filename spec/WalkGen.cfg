SPECIFICATION Spec
CONSTANT Two = TRUE
