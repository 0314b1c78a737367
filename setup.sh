#!/bin/sh
# builds the executor and compiles the harness crates once, so that failures show early
cd "$(dirname "$0")" && exec python3 lib/setup.py
