#!/bin/bash
# Nothing to install: checks build their harnesses from /repo on demand.  Parse all specifications.
cd "$(dirname "$0")/../spec" || exit 1
for m in *.tla; do
  tla-sany "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
python3 ../bin/mkprops.py && python3 ../bin/mkmanifest.py
