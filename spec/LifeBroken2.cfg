SPECIFICATION Spec
CONSTANTS Datas = {d1, d2, d3} Maps = {m1, m2} Flaw = "late"
INVARIANTS TypeOK Room AllBack NoneLeft
PROPERTY Ends
CHECK_DEADLOCK FALSE
