#!/bin/sh
# Checks the toolchain and parses every specification; nothing is built that a check depends on.
cd "$(dirname "$0")/specs" || exit 1
command -v tlc >/dev/null || { echo "tlc missing"; exit 1; }
/opt/venv/bin/python -c 'import numpy, scipy' || exit 1
rc=0
for f in *.tla; do
  tla-sany "$f" > /tmp/vf_sany.$$ 2>&1 || { echo "$f does not parse"; cat /tmp/vf_sany.$$; rc=1; }
done
rm -f /tmp/vf_sany.$$
exit $rc
