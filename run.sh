#!/bin/bash
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python3 run.py "$@"
