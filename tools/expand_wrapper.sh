#!/bin/bash
# RUSTC_WRAPPER: compiles as usual and, for the library crates of the repository, also writes the
# compiler's macro-expanded source to $VX_EXPAND_DIR/<crate>.rs
rustc="$1"; shift
case "${CARGO_PKG_NAME:-}" in
  rx_core*)
    name=""; proc=0; prev=""
    for a in "$@"; do
      [ "$prev" = "--crate-name" ] && name="$a"
      [ "$prev" = "--crate-type" ] && [ "$a" = "proc-macro" ] && proc=1
      prev="$a"
    done
    if [ -n "$name" ] && [ "$name" != build_script_build ] && [ $proc = 0 ]; then
      RUSTC_BOOTSTRAP=1 "$rustc" "$@" -Zunpretty=expanded > "$VX_EXPAND_DIR/$name.rs.tmp" 2>"$VX_EXPAND_DIR/$name.err" \
        && mv "$VX_EXPAND_DIR/$name.rs.tmp" "$VX_EXPAND_DIR/$name.rs"
    fi;;
esac
exec "$rustc" "$@"
