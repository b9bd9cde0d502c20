SPECIFICATION Spec
CONSTANTS NS = 3
 NT = 4
 MaxLen = 1
 MaxOver = 1
 InitSize = 1
 Small = TRUE
INVARIANT Follows
CHECK_DEADLOCK FALSE
