SPECIFICATION Spec
CONSTANT Top = 5000
INVARIANTS Agree Logs Roots
