"""Texts of MANIFEST.json that differ between the groups of checks (see tools/gen_manifest.py)"""
_BIND = "The binding to the code is by trace validation of TLC-enumerated and seeded random executions of the real code, so the guarantee for the code is per executed history. Trusted: TLC, the recording driver, g++."
TECH = {
    "checks_index": "TLA+ specifications of cache, memory pool and R*-tree at two levels (abstract LRU/Pool/SpatialIndex; implementation-shaped LRUList/PoolLists/RTree) checked with TLC; their histories are replayed into the real containers and the recorded traces validated by TLC",
    "checks_stream": "TLA+ specification of the serialized formats (Streamer, Wire) model-checked with TLC; serializer/streamer executions recorded from the real code, byte by byte, are validated against it by TLC",
    "checks_gf": "TLA+ specification of Green's functions in exact fixed-point arithmetic (GreensFunction) and of the blocked chunk walk (MCWalk) checked with TLC incl. liveness; recorded signals of the real code are validated against it by TLC",
    "checks_dense": "TLA+ specifications (DenseArray, Loops, Numpy, Vectors, GreensFunction) with implementation-shaped models (MCDense, MCLoops, MCSplit, MCDown) checked with TLC; their histories and seeded random ones are executed by the real code and the recorded results validated by TLC",
    "checks_prod": "TLA+ specification of the production pipeline (Production) and a model of the concurrent jobs, barriers, merge and rechunk (MCProd) checked with TLC incl. liveness; the real pipeline, run by parallel processes on a stand-in for the simulation package under schedules taken from the model, is recorded and validated by TLC",
    "P29": "TLA+ specification (Analytic, over the fixed-point numbers of BigNum) of the incomplete gamma function, the filtered dipole field and its sampling; recorded values and grids of the real code are validated against it by TLC",
    "P30": "TLA+ specification (Export) of exported texts in exact decimal arithmetic; recorded files of the real code are validated against it by TLC, byte by byte",
    "P32": "TLA+ specification (Shower) of shower libraries and tracks, with a model of the walk through the profile (MCShower) checked with TLC; recorded libraries, showers and tracks of the real code are validated against it by TLC",
    "P31": "TLA+ specification (Geometry) of regions, coordinates, permittivity and feed current; what a stand-in for the simulation package is told by the real code is validated against it by TLC",
}
NOTE = {
    "checks_index": "Both levels and the refinement between them are explored exhaustively for small constants. " + _BIND,
    "checks_stream": "The model is explored exhaustively for small shapes. " + _BIND,
    "checks_gf": "The walk is explored exhaustively for small constants; signals are compared within a rounding tolerance derived in the specification. " + _BIND,
    "checks_dense": "The models are explored exhaustively for small constants. " + _BIND,
    "checks_prod": "The model is explored exhaustively for small constants. MEEP itself is replaced by a stand-in with prescribed fields, so what the real package delivers is outside. " + _BIND,
    "P29": "Integer orders up to 9, arguments up to 20, dipole fields where the distance is a whole number of 64ths (Pythagorean points and the axis); relative accuracy 1/5000 and 1/1000. " + _BIND,
    "P30": "Normal numbers and zeros of single precision, precisions up to 20 digits. " + _BIND,
    "P32": "The walk is explored exhaustively for small profiles; directions with rational components, homogeneous ice (all the code has), positions within 2 mm and charges within 1/1000. " + _BIND,
    "P31": "Values that single precision holds exactly. MEEP itself is replaced by a stand-in that keeps what it is given. " + _BIND,
}
NA = {}
