SPECIFICATION Spec
INVARIANT Refines
