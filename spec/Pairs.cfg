SPECIFICATION PSpec
CONSTANTS
  MaxPuts = 3
  What = "histories"
  Types = {"bool"}
  MaxLen = 1
  Lists = "few"
INVARIANTS Partition Lists3 LastPutSeen SameForPointers PEmit
CHECK_DEADLOCK FALSE
