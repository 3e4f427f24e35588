SPECIFICATION RSpec
CONSTANTS
 Ranks = 3
 MaxN = 3
 Starts = {0, 1, 5}
INVARIANTS FilesAreBlocks FilesDisjoint HeaderOnce SummaryOfAll SameAsSerial
PROPERTY Terminates
CHECK_DEADLOCK TRUE
