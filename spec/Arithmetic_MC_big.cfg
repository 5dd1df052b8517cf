SPECIFICATION Spec
CONSTANT Top = 100000
INVARIANTS Agree Logs Roots
