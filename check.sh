#!/bin/bash
# check.sh check <property>   run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh replay <file>      re-execute a replay file
# check.sh selftest <prop>    repeat batches at several worker counts and compare
# check.sh setup              build everything once
# Every call rebuilds what it needs from /repo's current working tree.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
MODE=${1:-}
ARG=${2:-}
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
case "$SEED" in ''|*[!0-9]*) SEED=1 ;; esac
[ "$TIER" = thorough ] || TIER=quick

GO=/opt/veriftools/go1.27.3/bin/go
GOOLDS="/opt/veriftools/go1.26.10/bin/go /opt/veriftools/go1.25.14/bin/go"
[ -x "$GO" ] || GO=$(command -v go1.27 || command -v go)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOSUMDB=off GO111MODULE=on CGO_ENABLED=1
unset GODEBUG GOEXPERIMENT GOARCH GOOS GORACE GOMAXPROCS GOGC GOMEMLIMIT
export GOCACHE=${VERIF_GOCACHE:-$V/.build/cache}
B=$V/.build/$$
mkdir -p "$B" || exit 2
[ -n "${VERIF_KEEP:-}" ] || trap 'rm -rf "$B"' EXIT

die() { echo "ERROR: $*" >&2; exit 2; }

# A workspace of its own: the two modules under test and the simulator.
work() { # $1 = go version directive
  cat > "$B/go.work" <<W
go 1.25

use (
	$REPO
	$REPO/autoversion
	$V/sim
)
W
  export GOWORK=$B/go.work VERIF_GO=$GO VERIF_SIM=$V/sim
}

# instrument <dir> [flags]: overlay of the current tree
instrument() {
  local out=$1; shift
  if [ ! -x "$B/instrument" ]; then
    (cd "$V/sim" && GOWORK=off "$GO" build -o "$B/instrument" ./cmd/instrument) || die "cannot build the instrumenter"
  fi
  "$B/instrument" -repo "$REPO" -bridge "$V/sim/bridge" -out "$out" "$@" || die "cannot prepare the overlay"
}

# build <binary> <package> <overlay-dir> <go> [flags]
build() {
  if ! try_build "$@"; then
    cat "$B/err" "$B/err2" >&2
    die "the tree does not build with the simulator"
  fi
}

try_build() {
  local bin=$1 pkg=$2 ov=$3 go=$4; shift 4
  if ! (cd "$V/sim" && "$go" build -trimpath -overlay "$ov/overlay.json" "$@" -o "$bin" "./cmd/$pkg") 2>"$B/err"; then
    # Instrumentation must never decide: fall back to the plain sources.
    instrument "$ov.plain" -plain
    if ! (cd "$V/sim" && "$go" build -trimpath -overlay "$ov.plain/overlay.json" "$@" -o "$bin" "./cmd/$pkg") 2>"$B/err2"; then
      return 1
    fi
    echo "note: built without yield points"
  fi
}

binary_of() {
  case "$1" in
    C01|C02|C03|C04|C05|C06|C07|C09) echo stream ;;
    C08) echo conc ;;
    C10|C11|C12) echo auto ;;
    C13|C14) echo ucd ;;
    C15|C16|C19|C20) echo gentab ;;
    C17) echo regen ;;
    C18) echo machine ;;
    *) return 1 ;;
  esac
}

# narrow <binary> <package> <overlay-dir>: the same for a 32-bit platform, where
# int has 32 bits. Adds to ALT.
narrow() {
  [ -z "${VERIF_NO_NARROW:-}" ] || return 0
  if ! GOARCH=386 CGO_ENABLED=0 try_build "$1-32bit" "$2" "$3" "$GO" || [ "$("$1-32bit" alive 2>/dev/null)" != alive ]; then
    echo "note: no 32-bit build"
    return 0
  fi
  ALT=$ALT,32bit=$1-32bit
}

# prepare <binary>: sets MAIN and ALT
prepare() {
  work
  instrument "$B/ov"
  ALT=
  BROKEN=
  MAIN=$B/$1
  cp "$B/ov/sites.json" "$B/sites.json"
  case "$1" in
    conc)
      build "$B/conc" conc "$B/ov" "$GO"
      build "$B/conc-race" conc "$B/ov" "$GO" -race
      ALT=race=$B/conc-race
      narrow "$B/conc" conc "$B/ov"
      [ "$ALT" = "race=$B/conc-race" ] || ALT=$ALT,race=$B/conc-race ;;
    auto)
      build "$B/auto" auto "$B/ov" "$GO"
      for g in $GOOLDS; do
        v=$(basename "$(dirname "$(dirname "$g")")")
        [ -x "$g" ] || { echo "note: no $v here"; continue; }
        if ! try_build "$B/auto-$v" auto "$B/ov" "$g"; then
          # The newest release builds it: this one is not supported any more.
          # Only the packages under test may be to blame.
          if grep -qE 'undefined: auto\.|autoversion/|go-textseg/|/textseg/' "$B/err2"; then
            BROKEN="$BROKEN $v"
            grep -vE '^(#|note:)' "$B/err2" | head -1 | sed 's|^[^ ]*: ||; s/["\\]//g' > "$B/broken-$v"
            continue
          fi
          cat "$B/err" "$B/err2" >&2
          die "the tree does not build with the simulator and $v"
        fi
        ALT=$ALT,$v=$B/auto-$v
      done
      narrow "$B/auto" auto "$B/ov" ;;
    regen)
      # The stream simulator, with the table the generator makes.
      build "$B/gentab" gentab "$B/ov" "$GO"
      export VERIF_GENTAB=$B/gentab VERIF_TABLE=$B/table.go
      "$B/gentab" emit "$B/table.go"
      case $? in
        0)
          instrument "$B/ov17" -table "$B/table.go"
          cp "$B/ov17/sites.json" "$B/sites.json"
          if ! (build "$B/regen" stream "$B/ov17" "$GO") >"$B/berr" 2>&1; then
            export VERIF_TABLE_BROKEN=1
            build "$B/regen" stream "$B/ov" "$GO"
          fi ;;
        3) build "$B/regen" stream "$B/ov" "$GO" ;;
        *) die "cannot run the generator" ;;
      esac ;;
    *)
      build "$MAIN" "$1" "$B/ov" "$GO"
      narrow "$MAIN" "$1" "$B/ov" ;;
  esac
}

case "$MODE" in
  check|selftest)
    BIN=$(binary_of "$ARG") || die "unknown property $ARG"
    prepare "$BIN"
    mkdir -p "$V/evidence" "$V/replays"
    shift 2
    "$MAIN" "$MODE" -prop "$ARG" -seed "$SEED" -tier "$TIER" -alt "$ALT" -verif "$V" "$@"
    rc=$?
    if [ "$ARG" = C10 ] && [ "$MODE" = check ] && [ -n "$BROKEN" ] && [ $rc = 0 ]; then
      for v in $BROKEN; do
        R=$V/replays/C10-$v.json
        cat > "$R" <<J
{
 "property": "C10",
 "binary": "$v",
 "release_does_not_build": "$(cat "$B/broken-$v")",
 "how_to": "check.sh replay builds the package with this release again"
}
J
        echo "unsupported-release: autoversion does not compile with $v: $(cat "$B/broken-$v")"
        echo "VIOLATION property=C10 replay=$R"
      done
      exit 1
    fi
    exit $rc ;;
  replay)
    [ -f "$ARG" ] || die "no such file: $ARG"
    P=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$ARG" | head -1)
    BIN=$(binary_of "$P") || die "not a replay file: $ARG"
    prepare "$BIN"
    if grep -q '"release_does_not_build"' "$ARG"; then
      v=$(sed -n 's/^ *"binary": "\(.*\)",$/\1/p' "$ARG" | head -1)
      case " $BROKEN " in
        *" $v "*)
          echo "unsupported-release: autoversion does not compile with $v: $(cat "$B/broken-$v")"
          echo "VIOLATION property=C10 replay=$ARG"
          exit 1 ;;
      esac
      echo "property=C10: autoversion compiles with $v"
      exit 0
    fi
    "$MAIN" replay -file "$ARG" -alt "$ALT" -verif "$V"
    exit $? ;;
  setup)
    work
    instrument "$B/ov"
    for b in stream conc auto ucd gentab regen machine; do
      MAIN= ; prepare "$b"
    done
    echo "setup done"
    exit 0 ;;
  *) die "usage: check.sh check|selftest <property> | replay <file> | setup" ;;
esac
