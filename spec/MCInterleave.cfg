SPECIFICATION Spec
INVARIANTS Independent Emit
