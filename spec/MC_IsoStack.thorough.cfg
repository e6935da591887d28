SPECIFICATION Spec
CONSTANT MaxLayers = 3
INVARIANTS Energy Unimodular Reversal Reciprocity IndexMatched ExactArithmetic
CHECK_DEADLOCK FALSE
