#!/bin/bash
# RUSTC_WRAPPER: instrument the crates under test and the harness, nothing else.
name=""
prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  futures|futures_core|futures_channel|futures_util|futures_task|futures_sink|futures_io|futures_executor|slab|mcx)
    exec "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
esac
exec "$@"
