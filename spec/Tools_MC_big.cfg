SPECIFICATION Spec
CONSTANTS Docs = {7, 9, 12}
 Queries = {8}
 Prices = {1, 2}
INVARIANTS Right Known
PROPERTY Ends
