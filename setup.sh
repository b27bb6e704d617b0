#!/bin/bash
# Builds the clock shim and checks that the simulator starts.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
rm -f "$PWD/build/libsimclock.so"
/opt/venv/bin/python -c "
import sys; sys.dont_write_bytecode = True; sys.path.insert(0, '.')
from sim import driver
driver.build_clock()
w = driver.Worker(1); w.close()
print('simulator ready')"
