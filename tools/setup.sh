#!/bin/bash
# nothing to compile ahead: every check generates the MIR of /repo itself. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3, sys; sys.path.insert(0, "vc"); import props, check; print("properties:", len(props.PROPS))'
