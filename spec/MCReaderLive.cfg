SPECIFICATION Spec
INVARIANTS TypeOK
PROPERTY Terminates
