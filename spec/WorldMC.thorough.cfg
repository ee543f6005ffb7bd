CONSTANTS
 Objects = {"a", "b", "c"}
 Data = {"d1", "d2"}
 Queries = {"q1", "q2"}
 Length = 8
 Shared = FALSE
 Cached = FALSE
 Once = FALSE
SPECIFICATION Spec
INVARIANT OwnHistoryOnly
CHECK_DEADLOCK FALSE
