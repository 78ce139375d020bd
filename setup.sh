#!/bin/bash
# Unpacks hypothesis (pure wheels of the offline wheelhouse) into /verif/.deps
# and checks that the code under test imports.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -m rzbv.deps
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "from rzbv import sut; print('razorback from', sut.rzb.__file__)"
