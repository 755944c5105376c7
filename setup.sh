#!/bin/sh
# nothing to build: the engine is Python and instruments /repo's sources at every run
cd "$(dirname "$0")" && mkdir -p evidence && python3-vt -B -c "import z3; print('z3', z3.get_version_string())" && /opt/venv/bin/python -B -c "import base58, bitcoin, ecdsa, scrypt; print('target interpreter ready')"
