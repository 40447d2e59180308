SPECIFICATION Spec
CONSTANTS Datas = {d1, d2, d3, d4, d5, d6} Maps = {m1, m2} Flaw = "none"
INVARIANTS TypeOK Room AllBack NoneLeft
PROPERTY Ends
CHECK_DEADLOCK FALSE
