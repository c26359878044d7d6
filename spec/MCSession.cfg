SPECIFICATION Spec
INVARIANTS Faithful FreshReplies
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
