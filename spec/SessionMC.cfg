SPECIFICATION CSpec
CONSTANTS Threads = {t1, t2, t3}
          PerThread = 3
INVARIANTS UniqueIds NeverZero
PROPERTY AllMade
CHECK_DEADLOCK FALSE
