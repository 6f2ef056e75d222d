SPECIFICATION Spec
CONSTANTS
  RNames <- MCNames
  RParents <- MCParents
  MaxTags = 4
INVARIANTS OneToOne FirstOrder Inverse Back NoPrefix
PROPERTIES KeepsAll
CHECK_DEADLOCK FALSE
