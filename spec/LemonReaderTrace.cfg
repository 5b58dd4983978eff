SPECIFICATION RSpec
INVARIANT Conforms
INVARIANT Kinds
CHECK_DEADLOCK FALSE
