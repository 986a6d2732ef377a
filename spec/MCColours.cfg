INIT Init
NEXT Next
INVARIANTS LayerKept Exact NearestStandard NearestCube GreyOnly Monotone Between FullCircle Thirds Half
CHECK_DEADLOCK FALSE
