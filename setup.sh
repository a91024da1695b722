#!/bin/bash
# installs Hypothesis from the offline wheelhouse next to the checks
set -eu
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -d "$here/.deps/hypothesis" ] && exit 0
/opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels \
  --target "$here/.deps" hypothesis
