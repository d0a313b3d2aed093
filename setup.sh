#!/bin/bash
# Nothing to compile: checks import /repo/src directly.  Confirms that they can.
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONPATH="$PWD:/repo/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig \
  /opt/venv/bin/python -c "import qv, qutip_qtrl, qutip_qtrl.pulseoptim; print(qutip_qtrl.__file__)"
