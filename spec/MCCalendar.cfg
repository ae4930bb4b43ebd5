SPECIFICATION Spec
INVARIANTS Back Emit
PROPERTY Counts
