SPECIFICATION Spec
CONSTANTS
  Minutes = {0, 1, 83519, 527039}
  Units = {"MPa", "ksi"}
  Lens = {"mm", "in"}
  Names = {"A 1"}
  Depth = 3
INVARIANTS Readable Calendar Stateless Named
