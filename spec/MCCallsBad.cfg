SPECIFICATION Spec
INVARIANTS Fresh
