SPECIFICATION NearestSpec
CHECK_DEADLOCK FALSE
