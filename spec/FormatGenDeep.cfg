CONSTANTS Formats = {"nat", "nem", "mar", "gdf", "hst", "dat", "rad", "msh2", "msh4", "tec", "obj", "vtk", "vtu", "vtp", "stl", "pnl", "wrl", "med", "inp"}
 MeshIds = {1, 2, 3, 4, 5, 6}
 Splits = {1, 2, 3}
 LabelKinds = {1, 2, 3, 4, 5}
INIT Init
NEXT Next
INVARIANTS Means CutRefused DamageRefused Emit
CHECK_DEADLOCK FALSE
