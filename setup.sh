#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the harnesses by /opt/venv's Python.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
for f in spec/*.tla; do
  m=$(basename "$f" .tla)
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m.tla" > /tmp/sany.$$ 2>&1) || true
  if grep -q "Errors\|Fatal\|Could not" /tmp/sany.$$; then echo "SANY: $m"; cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; fi
done
rm -f /tmp/sany.$$
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c "import metrics_layer" || exit 1
echo setup ok
