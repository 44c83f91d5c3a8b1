#!/bin/bash
# Nothing to build: the checks import freegs from /repo's working tree. Confirms that the interpreter works.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
exec /opt/venv/bin/python -c "import numpy, scipy, h5py, freeqdsk, sys; sys.path.insert(0, '/repo'); import freegs; print(freegs.__file__)"
