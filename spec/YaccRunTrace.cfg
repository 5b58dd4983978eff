SPECIFICATION RSpec
INVARIANT Sane
CHECK_DEADLOCK FALSE
ALIAS Brief
