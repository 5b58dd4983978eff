SPECIFICATION Spec
CONSTANTS MaxRules = 4 MaxLen = 2 StrLen = 4
INVARIANTS LalrIsMergedLR1 MachineAcceptsTheLanguage
CHECK_DEADLOCK FALSE
