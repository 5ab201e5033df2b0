CONSTANT M = 2
SPECIFICATION Spec
INVARIANTS Irreflexive Asymmetric Transitive SameOnly ConvexSector ReflexSector Complement Rotates ConeExact
CHECK_DEADLOCK FALSE
