SPECIFICATION Spec
CONSTANT Strict = TRUE
INVARIANTS OnlyAllowed Counted WellFormed
