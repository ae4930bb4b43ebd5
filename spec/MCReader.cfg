SPECIFICATION Spec
INVARIANTS TypeOK InOrder Complete ErrorCount RaisedOnlyIfAsked EndLast Emit
PROPERTY Moves
