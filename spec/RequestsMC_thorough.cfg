CONSTANTS
  MaxOps = 3
  Asked = {"table", "factor", "summand", "curve", "knees", "body", "windows", "curves", "unit", "tube", "figure"}
SPECIFICATION Spec
INVARIANTS Both Single Alone
