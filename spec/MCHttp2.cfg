SPECIFICATION Spec
CONSTANTS
  Overhead = 32
  Universe <- U
  Static <- S1
  Cap = 110
  MaxSet = 3
  ReSend = "once"
  Fuel = 6
  MaxDepth = 3
  Emit = FALSE
INVARIANTS Bounded NoDup
PROPERTIES StepRoundTrip StepInSync StepTerminates StepRefSet
VIEW View
CHECK_DEADLOCK FALSE
