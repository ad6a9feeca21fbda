#!/bin/bash
# replay.sh <file>: run a reported counterexample against the real code (native build with sanitizers)
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python3 engine/replay.py "$(readlink -f "$1")"
