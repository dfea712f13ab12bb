#!/bin/bash
# check.sh <property>: decides one property on the current source of /repo.
# check.sh --build: only builds the analyser (offline, from the vendored sources).
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bin="$here/evidence/.bin/xverif"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
build() {
  mkdir -p "$here/evidence/.bin" || return 1
  if [ -x "$bin" ] && [ -z "$(find "$here/checker" -newer "$bin" -name '*.go' -print -quit)" ]; then
    return 0
  fi
  (cd "$here/checker" && GOFLAGS=-mod=vendor go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin")
}
build || { echo "the analyser does not build" >&2; exit 3; }
if [ "${1:-}" = "--build" ]; then
  exit 0
fi
tier="${VERIF_TIER:-quick}"
exec "$bin" -property "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -out "$here/evidence" -known "$here/KNOWN_FINDINGS.txt"
