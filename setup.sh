#!/bin/bash
# Builds what every check shares (the generator driver and std's LLVM IR); checks rebuild whatever is missing or outdated.
cd "$(dirname "$0")" && exec python3-vt lib/setup.py
