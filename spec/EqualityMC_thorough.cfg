CONSTANTS MaxChanges = 3
SPECIFICATION Spec
INVARIANTS Laws
