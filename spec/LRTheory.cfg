SPECIFICATION Spec
CONSTANTS MaxRules = 3 MaxLen = 2 StrLen = 3
INVARIANTS LalrIsMergedLR1 MachineAcceptsTheLanguage
CHECK_DEADLOCK FALSE
