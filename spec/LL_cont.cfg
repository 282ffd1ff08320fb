SPECIFICATION Spec
CONSTANTS n = 2 N = 2 CONT = 1
  COEFS = {0, 10, 30} CAPS = {20}
INVARIANTS Chance Naive Belotti Song SongParts KnapLemma Vertices Duality
CHECK_DEADLOCK FALSE
