#!/bin/bash
# run.sh <property id>...   build the analyser if needed and run checks
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/go/bin:/usr/lib/go/bin"
export GOCACHE="${GOCACHE:-$here/bin/gocache}"
bash "$here/build.sh" >&2 || { echo "building the analyser failed" >&2; exit 2; }
exec "$here/bin/bpcheck" "$@"
