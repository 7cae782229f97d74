SPECIFICATION Spec
CONSTANTS Tokens <- Words
 MaxLen = 5
INVARIANTS Modal RoundTrip Spaces Joined Enclose Viable Emit
CHECK_DEADLOCK FALSE
