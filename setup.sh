#!/bin/bash
# builds the fact extractor from the committed sources (offline, ~30 s)
set -e
cd "$(dirname "$0")"
python3 -c 'import sys; sys.path.insert(0,"lib"); import model; model.ensure_tool()'
