#!/bin/bash
# Build what the checks need from the committed files, offline.
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/build" "$here/evidence" "$here/out"
if [ -f "$here/shim/shim.c" ]; then
    gcc -O2 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -Wall -shared -fPIC -o "$here/build/shim.so" "$here/shim/shim.c" -ldl
fi
py=/opt/venv/bin/python
[ -x "$py" ] || py="$(command -v python3)"
"$py" -B -W ignore -c "import numpy, scipy, h5py, bayespy"
