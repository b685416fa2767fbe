# Sourced by run.sh.
T="$here/target"
MAIN="$T/a/release/kdlverif"
V1="$T/v1/release/kdlverif"
SER="$T/s/release/kdlverif"

quiet() { # run a build; show its output only when it fails; exit 2 then
  local log; log="$(mktemp)"
  if ! "$@" >"$log" 2>&1; then
    tail -n 40 "$log" >&2; rm -f "$log"
    echo "NO ANSWER: build failed: $*" >&2
    exit 2
  fi
  rm -f "$log"
}
build_main() { quiet cargo build --offline --release --manifest-path "$here/harness/Cargo.toml" --target-dir "$T/a"; }
build_v1() { quiet cargo build --offline --release --manifest-path "$here/harness/Cargo.toml" --features v1fb --target-dir "$T/v1"; }
build_serde() { quiet cargo build --offline --release --manifest-path "$here/harness/Cargo.toml" --features serde-types --target-dir "$T/s"; }
build_lsp() { quiet cargo build --offline --release --manifest-path /repo/tools/kdl-lsp/Cargo.toml --target-dir "$T/lsp"; }
