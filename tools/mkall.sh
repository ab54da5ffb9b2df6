#!/bin/sh
cd "$(dirname "$0")/.." && python3 -B tools/mkprops.py && python3 -B tools/mkmanifest.py
