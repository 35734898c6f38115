#!/bin/bash
cd ${V:-/verif}; timeout ${T:-600} python3-vt tools/rt.py "$@" 2>&1 | cut -c1-${W:-250} | grep -v "^  File\|^    " | head -${L:-15}
