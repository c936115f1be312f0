#!/bin/bash
# builds the MIR driver and extracts the facts of the current tree once
set -e
cd "$(dirname "$0")"
python3 engine/extract.py
