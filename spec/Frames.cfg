SPECIFICATION Spec
CONSTANTS
  Kinds = {"rr"}
  Sids = {1}
  Ns = {1}
  MDs = {1}
  Datas = {1}
  Tokens = {1}
  Mimes = {1}
  Durs = {1}
  Vers = {1}
  Phase = "round"
  Vals = {0}
INVARIANTS RoundTrip SizeFits Emit
CHECK_DEADLOCK FALSE
