#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's working tree.
cd "$(dirname "$0")" && mkdir -p .build evidence && python3 -c "import json;json.load(open('MANIFEST.json'))"
