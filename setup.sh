#!/bin/bash
# Builds the fact extractor (checks build it on demand as well).
cd "$(dirname "$0")" && python3 -c "from vsa import extract; print(extract.tool_path())"
