SPECIFICATION Spec
CONSTANTS Parts <- Whole
  Faults = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  Plain = TRUE
  SimDepth = 22
  Free = FALSE


CONSTRAINT EmitSim
INVARIANTS OneHolder LocksAreLive Reserved FailedNotSent PublishedOnce WatchedIsPending
CHECK_DEADLOCK FALSE
