SPECIFICATION Spec
CONSTANTS
  Procs <- Three
  Calls <- OneEach
  Inodes = {1, 2, 3, 4}
  Variant <- VariantEnv
  Deviate <- DeviateEnv
  Crashes = 0
  Locks = FALSE
INVARIANTS Linearizable  NoLeak
