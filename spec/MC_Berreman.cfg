SPECIFICATION Spec
CONSTANTS MaxLayers = 2
          Sines = {"0", "3/5"}
INVARIANTS Energy Reciprocity Turnaround IsotropicLimit Projector
CHECK_DEADLOCK FALSE
