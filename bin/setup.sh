#!/bin/bash
# Brings the compiled extensions up to date and checks that the tools are there.
cd "$(dirname "$0")/.." || exit 3
. bin/env.sh
bash bin/ensure_build.sh || exit 3
command -v java >/dev/null || { echo "java is missing"; exit 3; }
$PY -c "import numpy, scipy, astropy, stcal" || exit 3
echo ready
