#!/bin/bash
# build the extractor and the replay harness
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0, 'checks'); import check; print(check.build_tools())"
