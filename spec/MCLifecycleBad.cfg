SPECIFICATION Spec
INVARIANTS Unchanged
