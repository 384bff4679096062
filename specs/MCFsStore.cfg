SPECIFICATION Spec
CONSTANTS
  Procs <- Three
  Calls <- OneEach
  Inodes = {1, 2, 3, 4}
  Variant <- VariantEnv
  Deviate <- DeviateEnv
  Crashes = 1
  Locks = TRUE
INVARIANTS Linearizable Honoured NoLeak
PROPERTIES Steady
