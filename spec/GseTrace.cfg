SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  CT <- TrCT
  XP <- TrXP
  ENG <- TrEng
  PM <- TrPM
  FOCUS = "C01"
  FILE = "trace.json"
