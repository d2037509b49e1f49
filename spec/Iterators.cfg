SPECIFICATION Spec
CONSTANTS
    Size = 2
    Its = 2
    Most = 8
    OwnPosition = TRUE
INVARIANT Independent
