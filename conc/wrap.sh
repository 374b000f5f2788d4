#!/bin/bash
# RUSTC_WRAPPER: compiles colorz and the thread bodies with ThreadSanitizer's instrumentation (and no sanitizer
# runtime: conc/rt defines the instrumentation's entry points), everything else as it is.
rustc="$1"; shift
case " $* " in
 *" --crate-name colorz "*|*" --crate-name bodies "*)
  exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
 *" --crate-name "*) exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
 *) exec "$rustc" "$@" ;;
esac
