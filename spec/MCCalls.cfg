SPECIFICATION Spec
INVARIANTS Fresh Single Emit
