#!/bin/bash
# Offline sanity of the framework: every specification module parses and the harness imports.
cd "$(dirname "$0")" || exit 3
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec || exit 3
for m in *.tla; do
  java -cp $CP tla2sany.SANY "$m" >/tmp/verif-sany.$$ 2>&1 || { cat /tmp/verif-sany.$$; rm -f /tmp/verif-sany.$$; exit 1; }
done
rm -f /tmp/verif-sany.$$
cache=$(mktemp -d)
PYTHONPYCACHEPREFIX="$cache" PYTHONPATH=/repo/src /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "../harness"); import check, importlib; [importlib.import_module(m) for m in check.MODULES]'
rc=$?
rm -rf "$cache"
exit $rc
