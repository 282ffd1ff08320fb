SPECIFICATION Spec
CONSTANTS n = 2 N = 3 CONT = 0
  COEFS = {0, 10, 30} CAPS = {20}
INVARIANTS Chance Naive Belotti Song SongParts KnapLemma Vertices Duality
CHECK_DEADLOCK FALSE
