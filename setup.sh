#!/bin/bash
# Builds the checker from the committed sources.
set -eu
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence out
cd checker
go build -o ../bin/verifcheck.new .
mv ../bin/verifcheck.new ../bin/verifcheck
