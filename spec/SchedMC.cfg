INIT Init
NEXT Next_
VIEW View
CONSTANTS
  Mode <- ModeDef
  MaxLen <- LenDef
  MaxTime = 3000
INVARIANTS RoundComplete Limit Armed RefOk NoShutInRound OutcomeOnce Unique
PROPERTIES RoundOnce NoEarlyHand LimitStep StateSteps ShutdownRuns Refusals ManualRun
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
