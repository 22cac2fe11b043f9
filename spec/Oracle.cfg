CONSTANTS G = 6  Slice = 0  Slices = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
