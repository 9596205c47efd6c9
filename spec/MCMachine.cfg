INIT Init
NEXT Next
INVARIANTS CoresOk CacheOk UnitOk KilosAreMegas BuiltinWins
CHECK_DEADLOCK FALSE
