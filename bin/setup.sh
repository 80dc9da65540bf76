#!/bin/bash
# Sanity of the tool chain and of the committed files; every check builds what it needs by itself.
set -e
cd "$(dirname "$0")/.."
d=$(mktemp -d /tmp/verif_setup_XXXXXX)
trap 'rm -rf "$d"' EXIT
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar -d "$d" spec/java/*.java
python3 -m py_compile bin/check.py bin/vlib.py
echo setup ok
