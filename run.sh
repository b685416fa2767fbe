#!/bin/bash
# run.sh build        build every configuration
# run.sh <ID>         rebuild from /repo's current tree and decide one property
# Exit 0 held, 1 violated (with a VIOLATION line), anything else: no answer.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
. "$here/lib.sh"
case "$1" in
  build) build_main; build_v1; build_serde; build_lsp; python3 "$here/probe/drive.py" build ;;
  replay)
    case "$(grep -o '"property": *"C[0-9]*"' "$2")" in
      *C18*|*C19*|*C20*) build_v1 && exec "$V1" replay "$2" ;;
      *C25*) build_v1 && build_lsp && exec "$V1" replay "$2" ;;
      *C24*|*C26*) exec python3 "$here/probe/drive.py" replay "$2" ;;
      *C21*|*C22*|*C23*) build_serde && exec "$SER" replay "$2" ;;
      *) build_main && exec "$MAIN" replay "$2" ;;
    esac ;;
  *) if [ -x "$here/checks.d/$1.sh" ]; then . "$here/checks.d/$1.sh"; else build_main && exec "$MAIN" check "$1"; fi ;;
esac
