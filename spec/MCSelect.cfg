SPECIFICATION Spec
INVARIANTS Acks Fits Emit
