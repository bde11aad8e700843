#!/bin/bash
# bash check.sh PROPERTY [options]   |   bash check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
if [ "$1" = "--replay" ]; then exec python3-vt -m irvc.replay "$2"; fi
exec python3-vt -m irvc.run "$@"
