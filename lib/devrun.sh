#!/bin/bash
# development aid: run several checks one after another, print the last line of each
for p in "$@"; do python3 /verif/check.py $p --tier ${TIER:-quick} > /tmp/out.$p 2>&1; echo "$p rc=$? $(tail -1 /tmp/out.$p)"; done
