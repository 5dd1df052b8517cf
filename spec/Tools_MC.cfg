SPECIFICATION Spec
CONSTANTS Docs = {7, 9}
 Queries = {3, 8}
 Prices = {1, 2}
INVARIANTS Right Known
PROPERTY Ends
