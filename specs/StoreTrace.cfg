SPECIFICATION TraceSpec
CONSTRAINT Accepted
POSTCONDITION AllConsumed
VIEW View
CHECK_DEADLOCK FALSE
