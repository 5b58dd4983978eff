SPECIFICATION RSpec
INVARIANT Conforms
INVARIANT Progress
CHECK_DEADLOCK FALSE
