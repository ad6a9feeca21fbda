#!/bin/bash
# nothing to install: the engine is Python, harnesses are compiled by every check from /repo's current tree
cd "$(dirname "$0")" && mkdir -p evidence replays && exec /opt/veriftools/pyvenv/bin/python3 -m compileall -q engine
