#!/bin/bash
# Checks lean/Seq.lean: govc's axioms about sequences and logs and the recursive
# specification functions have a model (about 10 s; not part of any check).
cd "$(dirname "$0")/../lean" && ! grep -n 'sorry\|axiom ' Seq.lean | grep -v '^[0-9]*:The\|one axiom' && lean Seq.lean && echo ok
