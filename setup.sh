#!/bin/bash
# Offline set-up: build the engine and the objects of the current tree once
# (each check rebuilds whatever differs from /repo's tree when it runs).
cd "$(dirname "$0")" || exit 1
exec python3 check.py --setup
