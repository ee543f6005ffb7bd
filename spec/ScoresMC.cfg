CONSTANTS
 L = {0, 1, 2}
 Len0 = 3
 LabelLists = 3
SPECIFICATION Spec
INVARIANTS TableRight CountersRight OnceEach
