#!/bin/bash
# r.sh PATTERN [args]: only problems
cd ${VD:-/verif}/vc; python3-vt run.py "$@" 2>&1 | cut -c1-420 | grep -v "failed=0 und=0 unsup=0" | head -${LIM:-30}
