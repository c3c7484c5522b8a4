#!/bin/bash
# Builds the symbolic executor, the IR and the replay binaries once.
cd "$(dirname "$0")" && exec python3 check.py --setup
