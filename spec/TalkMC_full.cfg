SPECIFICATION Spec
CONSTANTS MaxTries = 3
 MaxMni = 2
 MaxInner = 2
 MaxCp = 2
 Slack = 1
 Sizes = {2, 3}
 Cnts = {1, 2}
INVARIANTS KnowsFound KnowsSize KnowsWhy Trials Noticed Unprovoked Leveled
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
