SPECIFICATION Spec
CONSTANT Pool = {"a", "A", "aa", "ab", "b_a"}
CONSTANT IdPool = {0, 1, 2}
CONSTANT MaxOps = 3
INVARIANT Bijective
INVARIANT OneToOne
INVARIANT Emit
CHECK_DEADLOCK FALSE
