#!/bin/bash
# Build what the checks share (each check rebuilds from /repo's current tree when it has changed).
cd "$(dirname "$0")" || exit 1
python3-vt -c "
import sys; sys.path.insert(0, 'lib')
import icbh; print(icbh.build_server())"
