#!/bin/bash
# Brings the compiled extensions of /repo's working tree up to date (git-ignored files only).
if [ -f /opt/vp/build_ext.sh ]; then
  out=$(bash /opt/vp/build_ext.sh 2>&1) || { echo "$out" | tail -20; exit 1; }
else
  cd /repo && $PY setup.py -q build_ext --inplace --force --parallel 4 || exit 1
fi
exit 0
