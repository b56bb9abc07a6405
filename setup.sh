#!/bin/bash
# Builds the engine and its runtime from the committed sources.
cd "$(dirname "$0")" && bash engine/build.sh build/engine && python3 -c "
import sys; sys.argv=['x']; sys.path.insert(0,'.'); import check; check.ensure_engine()"
