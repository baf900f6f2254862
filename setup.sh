#!/bin/bash
# Builds the harness once, plain and with the race detector, to warm the build cache.
set -e
cd "$(dirname "$0")"
./run.sh C05 -list > /dev/null
./run.sh C08 -list > /dev/null || true
