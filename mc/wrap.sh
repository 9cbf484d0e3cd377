#!/bin/bash
# rustc wrapper: compile the code under test (and the driver that calls it) with LLVM's memory
# instrumentation; the __tsan_* runtime it calls is mcrt's own.
rustc="$1"; shift
case " $* " in
 *" --crate-name candystore "*|*" --crate-name drv "*|*" --crate-name simd_itertools "*)
   exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
 *" --crate-name mc "*)
   exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
 *) exec "$rustc" "$@" ;;
esac
