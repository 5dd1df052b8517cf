SPECIFICATION Spec
POSTCONDITION Accepted
CONSTANT DB <- Database
