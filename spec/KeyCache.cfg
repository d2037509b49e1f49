SPECIFICATION CSpec
CONSTANT Check = "same"
PROPERTY Refines
