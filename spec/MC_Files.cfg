SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY OnlyNamed RefusedIsNothing ReadIsNothing WriteThenRead
CHECK_DEADLOCK FALSE
