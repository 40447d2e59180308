SPECIFICATION Spec
CONSTANTS Sizes = {0, 1, 2} Most = 4 Flaw = "keepboth"
INVARIANTS OnePlace Enough Willing
PROPERTY NeverSmaller
CHECK_DEADLOCK FALSE
