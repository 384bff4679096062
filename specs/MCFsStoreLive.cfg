SPECIFICATION Spec
CONSTANTS
  Procs <- Two
  Calls <- OneEach
  Inodes = {1, 2, 3, 4}
  Variant <- VariantEnv
  Deviate <- DeviateEnv
  Crashes = 1
  Locks = TRUE
PROPERTIES Return
