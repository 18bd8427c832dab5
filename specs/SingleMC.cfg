CONSTANTS Types = {"ec", "ed"}
  MaxKeygens = 2
  MaxSigns = 2
  MaxMsgs = 2
SPECIFICATION Spec
INVARIANT OwnKey
INVARIANT Complete
INVARIANT Once
INVARIANT Premature
PROPERTY Answered
PROPERTY Told
CHECK_DEADLOCK FALSE
