SPECIFICATION Spec
CONSTANTS CheckHash = FALSE
          CheckSigner = TRUE
INVARIANTS Prefix Whole ExactOrError
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
