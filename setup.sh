#!/bin/bash
# Sanity of the toolchain and of every specification module (parsed by SANY). The checks need nothing that this leaves behind.
cd "$(dirname "$0")/spec" || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
out=$(java -XX:+UseSerialGC -cp $CP tla2sany.SANY *.tla 2>&1) || { echo "$out" | tail -40; exit 1; }
echo "$(ls *.tla | wc -l) specification modules parse"
PYTHONPATH=/repo/python PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import moz.l10n.resource, moz.l10n.message, moz.l10n.migrate, moz.l10n.paths' || exit 1
