SPECIFICATION Spec
CONSTANTS K = 3
  Depth = 9
  MaxConds = 5
VIEW View
INVARIANTS TypeOK ConditionsNeedTheVolume NothingWrittenWhenOff WrittenWereThere OneByOne
PROPERTIES RefusalChangesNothing VolumeOnce EarlierConditionsStay
CHECK_DEADLOCK FALSE
