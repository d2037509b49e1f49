SPECIFICATION Spec
CONSTANTS
  Ks = {1, 2}
  Pws = {"p", "q"}
  Known = {"q", "none"}
  Pads = {"pkcs1", "pss"}
  Msgs = {1}
  Labels = {"a", "b"}
  Encrypted = TRUE
  Max = 2
INVARIANTS Kept Sealed Faithful Unique
CHECK_DEADLOCK FALSE
