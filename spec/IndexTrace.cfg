SPECIFICATION Spec
VIEW TraceView
POSTCONDITION Accepted
