SPECIFICATION Spec
CONSTANTS Sizes = {0, 1, 2, 3} Most = 6 Flaw = "none"
INVARIANTS OnePlace Enough Willing
PROPERTY NeverSmaller
CHECK_DEADLOCK FALSE
