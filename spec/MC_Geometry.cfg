SPECIFICATION Spec
CONSTANTS Quats <- QuatsDef
 Sizes <- SizesDef
 Pos <- PosDef
 Boxes2 <- Boxes2Def
INVARIANTS Rigid Composition Plane Overlap Contains
CHECK_DEADLOCK FALSE
