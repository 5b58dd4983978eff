SPECIFICATION Spec
INVARIANT Conforms
INVARIANT LinesStay
CHECK_DEADLOCK FALSE
