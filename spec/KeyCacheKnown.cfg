SPECIFICATION CSpec
CONSTANT Check = "known"
PROPERTY Refines
