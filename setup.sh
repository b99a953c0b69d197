#!/bin/bash
# Builds the engine and warms the compilation cache.
set -e
cd "$(dirname "$0")"
make -C engine
python3 run_check.py --warm
