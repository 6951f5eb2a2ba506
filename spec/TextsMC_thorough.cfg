SPECIFICATION Spec
CONSTANTS
  Minutes = {0, 1, 719, 83519, 85000, 527039, 617759, 1052639}
  Units = {"MPa", "kPa", "ksi"}
  Lens = {"mm", "in"}
  Names = {"north", "A 1"}
  Depth = 3
INVARIANTS Readable Calendar Stateless Named
