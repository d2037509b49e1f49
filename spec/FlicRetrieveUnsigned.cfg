SPECIFICATION Spec
CONSTANTS CheckHash = TRUE
          CheckSigner = FALSE
INVARIANTS Prefix Whole ExactOrError
CHECK_DEADLOCK FALSE
