SPECIFICATION LSpec
CONSTANT DepthLimit = 512
INVARIANT Accept
CHECK_DEADLOCK FALSE
