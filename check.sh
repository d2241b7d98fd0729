#!/bin/bash
# Decides one property on /repo's current tree: ./check.sh C03
set -u
dir="$(cd "$(dirname "$0")" && pwd)"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off CGO_ENABLED=0
bin="$dir/analyzer/bin/egtsverif"
if [ ! -x "$bin" ] || [ -n "$(find "$dir/analyzer" -maxdepth 1 -name '*.go' -newer "$bin" -print -quit)" ]; then
  mkdir -p "$dir/analyzer/bin"
  (cd "$dir/analyzer" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || exit 2
fi
unset GOFLAGS
export REPO_DIR="${REPO_DIR:-/repo}" VERIF_DIR="${VERIF_DIR:-$dir}"
[ "${1:-}" = build ] && exit 0
exec "$bin" check "$@"
