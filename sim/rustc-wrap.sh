#!/bin/bash
# RUSTC_WRAPPER: compiles the crates under test against the simulated standard library facade.
# $SIMSTD_DIR holds libsimstd.rlib.
rustc="$1"
shift
name=""
prev=""
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
    i18n_*) exec "$rustc" "$@" --extern "std=$SIMSTD_DIR/libsimstd.rlib" -L "dependency=$SIMSTD_DIR" ;;
    simx) exec "$rustc" "$@" --extern "simstd=$SIMSTD_DIR/libsimstd.rlib" -L "dependency=$SIMSTD_DIR" ;;
    *) exec "$rustc" "$@" ;;
esac
