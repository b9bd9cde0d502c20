----------------------------- MODULE FileCacheMC -----------------------------
EXTENDS FileCache
MC_FileOf == [k \in {"a", "b", "c"} |-> CASE k = "a" -> "f" [] k = "b" -> "f" [] k = "c" -> "g"]
=============================================================================
