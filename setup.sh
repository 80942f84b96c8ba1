#!/bin/bash
# Builds the extraction driver and warms the standard-library builds of all targets.
cd "$(dirname "$0")" && exec python3 analysis/extract.py
