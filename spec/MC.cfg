SPECIFICATION Spec
PROPERTY Prop
CHECK_DEADLOCK FALSE
CONSTANTS
  Setups <- TheSetups
  Moves <- TheMoves
  Depth <- TheDepth
  Probes <- TheProbes
  Laws <- TheLaws
