CONSTANTS
  MaxOps = 2
  Asked = {"signal", "word", "table", "pair", "factor", "summand", "curve", "knees", "body", "windows", "curves", "unit", "tube", "figure"}
SPECIFICATION Spec
INVARIANTS Both Single Alone
