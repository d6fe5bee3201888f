SPECIFICATION Spec
CONSTANTS EMax = 5
          NMax = 2
INVARIANTS Admissible OnSurface Irreversible Dissipates Idempotent Fresh Agree Elastic Unique Exists
CHECK_DEADLOCK FALSE
