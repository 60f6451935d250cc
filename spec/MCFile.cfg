SPECIFICATION Spec
CONSTANTS
  Cases <- FileCases
  Fine <- IsFine
  Emits = TRUE
  LawSize <- LawsUpTo
INVARIANTS AllInv TextInv NewlineInv NestInv YieldInv TreeInv LoopInv BindInv RuleInv
PROPERTIES Progress Stable
CHECK_DEADLOCK FALSE
