SPECIFICATION Spec
CONSTANT MaxLayers = 2
INVARIANTS Energy Unimodular Reversal Reciprocity IndexMatched ExactArithmetic
CHECK_DEADLOCK FALSE
