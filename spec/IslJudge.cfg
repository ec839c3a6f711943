SPECIFICATION TSpec
VIEW View
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
CONSTANTS JudgeOK <- Judgement
          Expect <- Expected
