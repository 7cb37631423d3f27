CONSTANTS
    Kinds <- K_
    NM <- NM_
    Guards <- G_
    MaxOrphan <- MO_
    Dump <- D_
SPECIFICATION Spec
INVARIANTS Accounted Compatible OwnsImpliesMutex Balanced ErrorsChangeNothing SourceGivesUp
CHECK_DEADLOCK FALSE
