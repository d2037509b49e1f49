SPECIFICATION Spec
CONSTANT Strict = FALSE
INVARIANTS OnlyAllowed Counted WellFormed
