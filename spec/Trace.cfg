SPECIFICATION Spec
VIEW TView
CHECK_DEADLOCK FALSE
