CONSTANTS MaxScale = 3
 MaxStress = 3
 MaxChanges = 2
SPECIFICATION Spec
INVARIANTS TableHolds Monotone Refused Enlarged
