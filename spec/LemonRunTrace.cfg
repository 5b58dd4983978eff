SPECIFICATION RSpec
INVARIANT Conservation
CHECK_DEADLOCK FALSE
ALIAS Brief
