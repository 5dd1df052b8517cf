SPECIFICATION Spec
CONSTANTS
  Terms = {1, 2}
  Counts = {1, 2, 1023}
  MaxDocs = 3
  MaxToks = 3
INVARIANTS Ordered Partition RoundTrip Quantised
