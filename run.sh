#!/bin/bash
# run.sh check <id> <tier> | replay <file> | build
# Builds the harness (and with it /repo's working tree) and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true
TARGET="${MC_TARGET:-$PWD/target}"
mkdir -p "$TARGET"
build() { # variant (empty, rustls, openssl or mt): sets BIN
  local dir="$TARGET" flags=()
  unset RUSTC_WRAPPER
  case "$1" in
    "") ;;
    mt) dir="$TARGET/mt"; flags=(--features mt); export RUSTC_WRAPPER="$PWD/tools/mtrustc.sh";;
    with-*) dir="$TARGET/features"; local f="${1#with-}"; flags=(--no-default-features --features "${f//-/,}");;
    *) dir="$TARGET/$1"; flags=(--features "tls_$1");;
  esac
  mkdir -p "$dir"
  CARGO_TARGET_DIR="$dir" cargo build --offline --quiet --manifest-path harness/Cargo.toml "${flags[@]}" 2>"$dir.log" || {
    [ "${1#with-}" != "$1" ] || [ -n "${MAY_FAIL:-}" ] && return 2
    cat "$dir.log" >&2; echo "ERROR: build failed" >&2; exit 2; }
  BIN="$dir/debug/octane_mc"
}
variant_of() { # replay file
  case "$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("variant",""))' "$1")" in
    rustls|openssl|mt|with-*) python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["variant"])' "$1";; *) echo "";; esac
}
case "${1:-}" in
  build) build ""; build rustls; build openssl; build mt; for f in $(python3 -B tools/features.py quick); do build "with-$f" || exit 2; done; exit 0;;
  check) case "$2" in
      C26|C27) exec python3 -B macros/check.py "$2" "${3:-quick}";;
      C23) # both TLS back ends
        bad=0
        for v in rustls openssl; do
          build $v
          MC_EVIDENCE_SUFFIX=".$v" "$BIN" check C23 "${3:-quick}"; rc=$?
          [ $rc = 0 ] || { bad=$rc; break; }
        done
        if [ $bad != 2 ]; then python3 -B tools/merge.py C23 rustls openssl || exit 2; fi
        exit $bad;;
      C09) # one thread with every order of events, then several threads
        build ""
        MC_EVIDENCE_SUFFIX=".one" "$BIN" check C09 "${3:-quick}"; bad=$?
        if [ $bad = 0 ]; then
          build mt
          "$BIN" mt "${3:-quick}"; bad=$?
        fi
        if [ $bad != 2 ]; then python3 -B tools/merge.py C09 one mt || exit 2; fi
        exit $bad;;
      C20) # a code of the public enumeration that is no longer there
        MAY_FAIL=1 build "" || {
          cat "$TARGET.log" >&2
          if grep -q '^error\[' "$TARGET.log" && ! grep -A1 '^error\[' "$TARGET.log" | grep -e '-->' | grep -qv ' src/status.rs' &&
            CARGO_TARGET_DIR="$TARGET/features" cargo build --offline --quiet --lib --manifest-path "${REPO:-/repo}/Cargo.toml" 2>/dev/null; then
            python3 -B tools/nobuild.py C20 "" "$TARGET.log" "${3:-quick}"; exit 1
          fi
          echo "ERROR: build failed" >&2; exit 2; };;
      C30) # servers without some of the optional features
        bad=0; parts=()
        for f in $(python3 -B tools/features.py "${3:-quick}"); do
          build "with-$f" || {
            # the server itself, or only this harness?
            if CARGO_TARGET_DIR="$TARGET/features" cargo build --offline --quiet --lib --manifest-path "${REPO:-/repo}/Cargo.toml" --no-default-features --features "${f//-/,}" 2>"$TARGET/features.log"; then
              cat "$TARGET/features.log" >&2; echo "ERROR: build failed" >&2; bad=2
            else
              mkdir -p replays
              python3 -B tools/nobuild.py C30 "$f" "$TARGET/features.log" "${3:-quick}"; bad=1
            fi
            break; }
          parts+=("with-$f")
          MC_EVIDENCE_SUFFIX=".with-$f" "$BIN" check C30 "${3:-quick}"; bad=$?
          [ $bad = 0 ] || break
        done
        if [ $bad != 2 ] && [ ${#parts[@]} -gt 0 ]; then python3 -B tools/merge.py C30 "${parts[@]}" || exit 2; fi
        exit $bad;;
    esac
    build ""; exec "$BIN" check "$2" "${3:-quick}";;
  replay) build "$(variant_of "$2")"; exec "$BIN" replay "$2";;
  *) build ""; exec "$BIN" "$@";;
esac
