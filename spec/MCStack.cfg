SPECIFICATION Spec
INVARIANTS TypeOK AllArrives Compose FramedSentences FramedForeign FramedTrunc SameAsFile NoneLost Emit
