#!/bin/bash
# builds the symbolic executor and warms the compile cache for /repo's current tree
cd "$(dirname "$0")" && python3 tools/setup.py
