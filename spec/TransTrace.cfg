SPECIFICATION TraceSpec
VIEW View
CHECK_DEADLOCK FALSE
