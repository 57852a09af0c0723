#!/bin/sh
# note.sh ID "technique" "level note": record a claimed check
cd "$(dirname "$0")/.." && python3 - "$@" <<'P'
import json, sys
f = "tools/notes.json"; d = json.load(open(f)); d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(dict(sorted(d.items())), open(f, "w"), indent=1)
P
python3 tools/manifest.py
