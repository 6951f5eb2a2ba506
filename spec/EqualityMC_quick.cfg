CONSTANTS MaxChanges = 2
SPECIFICATION Spec
INVARIANTS Laws
