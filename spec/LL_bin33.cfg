SPECIFICATION Spec
CONSTANTS n = 3 N = 2 CONT = 0
  COEFS = {0, 10, 30} CAPS = {20, 40}
INVARIANTS Chance Naive Belotti Song SongParts KnapLemma Vertices Duality
CHECK_DEADLOCK FALSE
