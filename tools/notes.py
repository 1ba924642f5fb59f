NA = {
 'C28': 'A liveness statement (every accepted collection is eventually handed on within a bounded time): contracts state partial correctness and safety, no contract within reach expresses a bound on when a background goroutine runs.',
 'C29': 'A liveness statement about an accept loop that depends on the network and the scheduler; partial-correctness contracts cannot express that the loop keeps serving.',
 'C30': 'About the Python client in /repo/python: no deductive verifier for Python is available here, and the contracts are for the Go code only.',
 'C31': 'The memory store hands out pointers into its live trees by design, so the property does not hold as a contract of the code; a reader has no way to take the store\'s lock. Data-race freedom of caller code is outside the functions under contract.',
}
LEVELS = {}
TECHS = {}
NOTES = {
 'C09': 'Contracts on Write, ReadFrom, indexSpans and PersistEvery. encoding/gob itself is assumed: that what it decodes equals what it encoded is checked by a bounded replay (random histories, truncated inputs, failing writers), labelled bounded in the evidence and not counted as proved.',
 'C21': 'Contracts on parseValueToPtr, parseValue and the scalar cases of flattenValue and unflattenValue: each text is printed and parsed by the inverse library functions at exactly the width of the field, and set only if it parses. That strconv and time print and parse inversely, the float arithmetic of durations, and the struct, map and slice cases are checked by a bounded replay over boundary and random values of every field kind, labelled bounded and not counted as proved.',
}
