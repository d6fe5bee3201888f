SPECIFICATION Spec
INVARIANTS Inv Covers
PROPERTY Ends
