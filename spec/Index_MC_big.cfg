SPECIFICATION Spec
CONSTANTS
  Terms = {1, 2, 3}
  Counts = {1, 2, 1023}
  MaxDocs = 3
  MaxToks = 5
INVARIANTS Ordered Partition RoundTrip Quantised
