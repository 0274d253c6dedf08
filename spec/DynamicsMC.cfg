SPECIFICATION Spec
CONSTANTS Steps = 3
INVARIANTS Equations Equivariant Ballistic Impulse Easy
CHECK_DEADLOCK FALSE
