#!/bin/bash
# builds the IR dumper (engine/vcdump.cpp) into /verif/.build
set -e
cd "$(dirname "$0")"
python3 engine/check.py --setup
