SPECIFICATION TSpec
CONSTANTS SC = 15
          NSYM = 16
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
