SPECIFICATION Spec
INVARIANTS Unchanged NeverAliased Emit
