SPECIFICATION Spec
INVARIANT Ends
