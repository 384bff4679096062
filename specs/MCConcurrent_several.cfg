SPECIFICATION MCSpec
CONSTANTS
  Suffix <- MCSuffix
  People = {2, 3}
  Calls <- TwoCalls
  Profile = "several"
  Deviate <- DeviateEnv
INVARIANTS ValueSeen DocumentSeen RegionSeenWhole DeleteSays DeleteFails Content OneCreation OneKind
  NoLostUpdate OnlySet OwnStays OwnRead OwnSays Listing Removed Opened
PROPERTIES LockedStays LockedUnread EntryStays
