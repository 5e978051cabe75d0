#!/bin/bash
# RUSTC_WRAPPER of the native simulation build: compiles the code under test (stylist and
# stylist-core, target side only) with a call-out before every memory access and atomic operation,
# which the simulator uses as preemption points (the usual TSan instrumentation, but linked against
# the simulator's own callbacks instead of the TSan runtime).
rustc="$1"; shift
name=; target=; deps=
prev=
for a in "$@"; do
  case "$prev" in
    --crate-name) name="$a" ;;
    --target) target="$a" ;;
  esac
  [ "$a" = --extern ] && deps=1
  prev="$a"
done
# A corpus without the macro uses that the macros under test reject (see check.py).
if [ "$name" = macro_corpus ] && [ -n "$SIM_CORPUS" ]; then
  args=()
  for a in "$@"; do
    case "$a" in
      *src/lib.rs) args+=("$SIM_CORPUS") ;;
      *) args+=("$a") ;;
    esac
  done
  set -- "${args[@]}"
fi
if [ -n "$target" ]; then
  case "$name" in
    stylist|stylist_core|macro_corpus|once_cell)
      RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
    sim)
      RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer -Zshare-generics=no ;;
    *)
      # May depend on an instrumented crate.
      [ -n "$deps" ] && RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
  esac
fi
exec "$rustc" "$@"
