SPECIFICATION Spec
CONSTANTS
 T = 2
 B = 2
 NPts = 3
 Epochs = 2
 DataMutex = TRUE
 OneLock = TRUE
 OwnLabel = TRUE
 OwnMemory = TRUE
 ClearGradients = TRUE
 CountStored = TRUE
 OwnSlots = TRUE
 JoinFirst = TRUE
 InitLock = TRUE
 AtomicHits = TRUE
INVARIANTS NothingBad SourceExclusive SlotExclusive InitOnce
PROPERTIES ObsSpec Terminates
CHECK_DEADLOCK TRUE
