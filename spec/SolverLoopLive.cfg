SPECIFICATION Spec
CONSTANTS Dts = {1, 2}
 Ws = {0}
 MaxIt = 99
CONSTRAINT LiveBound
PROPERTY Terminates
CHECK_DEADLOCK FALSE
