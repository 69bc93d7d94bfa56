#!/bin/bash
# tools/tryseed.sh ID [CHECK...]: try a planted change in a scratch copy of /repo.
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
seed=$here/seeded/$id
copy=$(mktemp -d /tmp/sx-XXXXXX)
trap 'rm -rf "$copy"' EXIT
cp -a /repo/. "$copy"
(cd /repo && timeout 300 bash "$seed/demo.sh" >"$copy.log" 2>&1); echo "demo on unchanged tree: $?"; 
cd "$copy" && git apply "$seed/patch.diff" || exit 1
timeout 300 bash "$seed/demo.sh" >"$copy.log" 2>&1; echo "demo with the change: $?"; tail -2 "$copy.log"
if [ -z "$NOTEST" ]; then
PYTHONPATH=$copy/src TMPDIR=$copy PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 \
 setpriv --bounding-set -dac_override,-dac_read_search /opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider \
 -o python_classes= --timeout=120 tests 2>&1 | tail -3
fi
for c in "$@"; do VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=$copy "$here/check" "$c" --tier quick 2>&1 | grep -v '^ ' | tail -4; done
rm -f "$copy.log"
