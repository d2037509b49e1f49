SPECIFICATION Spec
CONSTANTS CheckHash = TRUE
          CheckSigner = TRUE
INVARIANTS Prefix Whole ExactOrError
CHECK_DEADLOCK FALSE
