#!/bin/bash
# Builds the harness once, to show that it builds here; every check builds again from /repo's working tree.
set -e
cd "$(dirname "$0")"
exec python3 check.py --setup
