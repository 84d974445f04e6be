SPECIFICATION Spec
CONSTANTS
  Bases = {}
  Forms = {"text", "upper", "mixed", "urn", "URN", "braced", "raw", "RAW"}
  Muts = {"none", "set", "del", "ins", "cut", "swap"}
  Chars = {}
INVARIANTS RoundTrip Refused Emit
CHECK_DEADLOCK FALSE
