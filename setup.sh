#!/bin/bash
# Checks the tools and parses every specification. Nothing is built outside /verif.
cd "$(dirname "$0")" || exit 1
command -v java >/dev/null && command -v tla-sany >/dev/null || { echo "TLA+ tools missing"; exit 1; }
for m in spec/*.tla; do
  (cd spec && tla-sany "$(basename "$m")") > /tmp/sany.$$ 2>&1 || { echo "SANY: $m"; cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
  grep -qiE "^(\*\*\* Errors|Fatal|Parse Error)" /tmp/sany.$$ && { echo "SANY: $m"; cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
mkdir -p evidence replays
PYTHONPATH=harness/stubs:harness:/repo PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu /opt/venv/bin/python -c "import vp.core, vp.tlc, mplang" || exit 1
echo "setup ok"
