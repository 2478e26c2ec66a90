SPECIFICATION Spec
CONSTANTS
  TypeSet = "small"
  MaxOps = 3
  Emit = FALSE
  Variant = "ok"
  OrderSet = "all"
INVARIANTS Denotes LayoutsOk
PROPERTY Immutable
CHECK_DEADLOCK FALSE
