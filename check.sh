#!/bin/bash
# usage: check.sh PROPERTY TIER    (quick or thorough)
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
exec python3 check.py "$@"
