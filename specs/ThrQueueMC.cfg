SPECIFICATION Spec
CONSTANTS
  NJ = 3
  Queues = {1, 99}
  Threads = {0, 1}
INVARIANTS OneAtATime InlineNested MainOnMain Fifo SyncDone OnceEach
CHECK_DEADLOCK FALSE
