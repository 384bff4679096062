SPECIFICATION MCSpec
CONSTANTS
  Suffix <- MCSuffix
  People = {2,3,4}
  Calls <- Uneven
  Profile = "locks"
  Deviate <- DeviateEnv
INVARIANTS ValueSeen DocumentSeen RegionSeenWhole DeleteSays DeleteFails Content OneCreation OneKind
  NoLostUpdate OnlySet OwnStays OwnRead OwnSays Listing Removed Opened
PROPERTIES LockedStays LockedUnread EntryStays
