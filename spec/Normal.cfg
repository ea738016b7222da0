SPECIFICATION Spec
CONSTANTS
 Words = {1, 2, 3}
 MaxLen = 4
 BUG = "none"
INVARIANT Right
PROPERTY Ends
