#!/bin/bash
# RUSTC_WRAPPER of the browser simulation build: compiles stylist's browser code (it is selected by
# the target architecture), natively, against the stand-ins of /verif/vendor.
rustc="$1"; shift
name=; target=
prev=
for a in "$@"; do
  case "$prev" in
    --crate-name) name="$a" ;;
    --target) target="$a" ;;
  esac
  prev="$a"
done
if [ -n "$target" ]; then
  case "$name" in
    stylist) exec "$rustc" "$@" --cfg 'target_arch="wasm32"' -A explicit_builtin_cfgs_in_flags ;;
    bsim) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zshare-generics=no ;;
  esac
fi
exec "$rustc" "$@"
