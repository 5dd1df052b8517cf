SPECIFICATION Spec
VIEW View
POSTCONDITION Accepted
