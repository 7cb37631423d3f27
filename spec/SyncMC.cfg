SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exclusion Visible Truthful Served NotEarly NotLate WaitOwns Predicate Conserved AutoReset Handed Places Cleaned Callbacks Handover HandedOver
PROPERTIES FlagSeen PostReleases FlagStays Wakes Refused ReportsOnly LastThing
