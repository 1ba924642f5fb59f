#!/bin/bash
# tryseed.sh ID [PROP]: apply a planted change to /repo, run the property's check, undo.
cd "$(dirname "$0")/.."
P=${2:-$(python3 -c "import json;print(json.load(open('seeded/$1/meta.json'))['property'])")}
git -C /repo apply "$PWD/seeded/$1/patch.diff" || exit 9
S=$(date +%s); O=$(./check.sh $P 2>&1); R=$?
git -C /repo checkout -- .
echo "$1 $P exit=$R $(($(date +%s)-S))s $(echo "$O" | grep -c FAILED) failed; $(echo "$O" | grep 'VIOLATION\|failing input' | cut -c1-260)"
