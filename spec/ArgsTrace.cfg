CONSTANT Objects = {}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
