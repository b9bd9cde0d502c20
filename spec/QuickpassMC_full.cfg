SPECIFICATION Spec
CONSTANTS NS = 3
 NT = 4
 MaxLen = 2
 MaxOver = 1
 InitSize = 2
 Small = FALSE
INVARIANT Follows
CHECK_DEADLOCK FALSE
