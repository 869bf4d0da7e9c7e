#!/bin/bash
# builds the exporter and exports the current tree once (the checks re-export whatever changed)
set -e
cd "$(dirname "$0")/.."
bash tools/astexport/build.sh
python3 -c 'from sa import program; program.load(); print("exported")'
