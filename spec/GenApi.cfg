SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
POSTCONDITION AllWalks
CHECK_DEADLOCK FALSE
