CONSTANTS
 Objects = {"a", "b"}
 Data = {"d1", "d2"}
 Queries = {"q1", "q2"}
 Length = 5
 Shared = FALSE
 Cached = TRUE
 Once = FALSE
SPECIFICATION Spec
INVARIANT OwnHistoryOnly
CHECK_DEADLOCK FALSE
