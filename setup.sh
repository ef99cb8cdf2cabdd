#!/bin/bash
# Builds the analysis driver and warms the dependencies of the analysed crates.
set -e
cd "$(dirname "$0")"
python3 -c "
import sys; sys.path.insert(0,'sa')
import build
build.build_driver(); build.dump(build.ALL)"
