SPECIFICATION Spec
CONSTANTS MaxTries = 2
 MaxMni = 2
 MaxInner = 2
 MaxCp = 2
 Slack = 1
 Sizes = {2, 3}
 Cnts = {1, 2}
INVARIANTS NotStuck StopIsProgress StoppedRests Budget Truth Known
PROPERTIES Kept Improves Terminates
CHECK_DEADLOCK FALSE
