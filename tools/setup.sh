#!/bin/bash
# Builds the clock shim. Everything else is interpreted.
cd "$(dirname "$0")/.." || exit 2
mkdir -p build evidence replays
gcc -O2 -shared -fPIC -o build/simclock.so.tmp native/simclock.c && mv build/simclock.so.tmp build/simclock.so
