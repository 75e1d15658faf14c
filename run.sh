#!/bin/bash
# run.sh <property-id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
if [ ! -x bin/qkverif ] || [ -n "$(find analyzer -newer bin/qkverif -type f 2>/dev/null | head -1)" ]; then
  ./analyzer/build.sh || { echo "analyzer build failed"; exit 2; }
fi
exec ./bin/qkverif -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
