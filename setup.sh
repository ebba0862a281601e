#!/bin/bash
# Nothing to build ahead: every check regenerates its encoding from /repo on each run.
cd "$(dirname "$0")" && mkdir -p evidence && /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0,'.'); import vp.boot, z3; print('z3', z3.get_version_string())"
