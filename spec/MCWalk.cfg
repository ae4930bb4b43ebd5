SPECIFICATION Spec
INVARIANTS Aligned Unique Agrees NoHole Emit
