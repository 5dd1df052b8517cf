SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 65, 127, 128, 143, 144, 191, 192, 193, 223, 224, 239, 240, 244, 247, 248, 255}
  Length = 5
  DB <- NoData
INVARIANTS RoundTrip Inside Local Shortest
CHECK_DEADLOCK FALSE
