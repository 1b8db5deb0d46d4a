#!/bin/bash
# Nothing to compile: the framework is pure Python and imports /repo's working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=/repo:/verif
mkdir -p evidence replays
exec /opt/venv/bin/python -c "import mc.run, mc.est, cyclic_boosting; assert cyclic_boosting.__file__.startswith('/repo/')"
