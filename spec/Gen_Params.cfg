SPECIFICATION GenSpec
CONSTANTS MaxSteps = 9 MaxObjs = 4 Small = TRUE
 Classes = {"Cauchy", "CauchyCustomExponent", "CauchyUrbach", "CodyLorentz", "ConstantRefractiveIndex", "DrudeEnergy", "DrudeResistivity", "EpsilonInf", "Gaussian", "LorentzEnergy", "LorentzLambda", "Poles", "Polynomial", "Sellmeier", "SellmeierCustomExponent", "Table", "TableEpsilon", "Tanguy", "TaucLorentz"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
