#!/bin/bash
# replay.sh FILE: run one recorded case against /repo's current tree
cd "$(dirname "$0")/.." && exe=$(python3 -c "
import sys; sys.path.insert(0, 'checks'); import check; print(check.build_tools()[0])") && exec "$exe" replay "$1"
