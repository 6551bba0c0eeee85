SPECIFICATION Spec
CONSTANTS SizesX = {1, 2, 3}
SizesY = {1, 2}
SizesF = {2, 4}
Planes = {1, 5}
Emit = TRUE
INVARIANTS Faithful InPlace SkyOrder EmitCase
CHECK_DEADLOCK FALSE
