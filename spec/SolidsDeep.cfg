CONSTANTS D = {1, 2, 3, 5, 7, 8, 20}
INIT Init
NEXT Next
INVARIANTS Hemis HemiShells Wedges Iso Pyrs CylShell SphereShell ConeSlices Frustum FrustumEnds TorusThin Hollow Emit
CHECK_DEADLOCK FALSE
