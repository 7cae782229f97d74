SPECIFICATION Spec
CONSTANTS Tokens <- Chars
 MaxLen = 6
INVARIANTS Modal RoundTrip Spaces Joined Enclose Viable Emit
CHECK_DEADLOCK FALSE
