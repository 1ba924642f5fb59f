#!/bin/bash
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin build evidence
cd govc && go build -o ../bin/govc .
