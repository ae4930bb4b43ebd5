SPECIFICATION Spec
INVARIANTS DecodedSoFar NoLoss DecSegSame Lines Sizes AllRead Emit
