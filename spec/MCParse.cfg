SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS PrefixOK CanComplete Balanced OneGoal TemplateGoal
PROPERTIES P03 P04 P09 P10 P11 P12 P16
ACTION_CONSTRAINT Edge
