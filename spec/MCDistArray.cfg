CONSTANTS
  Ids = {a1}
  Dirs = {d1, d2}
  NoDir = NoDir
  W = 2
  H = 2
  MaxChunks = 2
  MaxTotal = 2
  MaxLevel = 6
  ChunkShapes <- MCSmall
  Overlaps <- MCZeroOne
SYMMETRY Sym
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Steps Reopened
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
