#!/bin/bash
# builds the extractor, the AST of the current sources and the sanitized objects of /repo's libraries
set -e
cd "$(dirname "$0")"
python3-vt engine/extract_all.py
python3-vt - <<'P'
import sys
sys.path.insert(0, 'engine')
import native, glob, os
native.build()
for h in sorted(glob.glob('harness/*.cpp')):
    exe, err = native.build(os.path.basename(h)[:-4])
    print(h, 'ok' if exe else err)
P
