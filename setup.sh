#!/bin/bash
# builds the verifier and the replay harness (the checks do the same if this is missing)
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
exec python3 check.py --setup
