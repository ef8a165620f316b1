#!/bin/bash
# Nothing has to be built: check that the tools are there and that the
# specifications parse.
cd "$(dirname "$0")" || exit 1
test -x /opt/venv/bin/python || exit 1
command -v tlc >/dev/null || exit 1
cd spec || exit 1
for m in *.tla; do
  tla-sany "$m" > /tmp/sany_$$ 2>&1 || { cat /tmp/sany_$$; rm -f /tmp/sany_$$; exit 1; }
done
rm -f /tmp/sany_$$
echo setup ok
