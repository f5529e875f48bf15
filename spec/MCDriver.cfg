SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxSteps = 5
INVARIANTS Sound Complete Position Outcome TypeOK Follow OffScript Stimuli
PROPERTIES Absorbing OneStep
CHECK_DEADLOCK FALSE
