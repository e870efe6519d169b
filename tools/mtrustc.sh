#!/bin/bash
# rustc wrapper of the multi-thread variant: the server's own crates call back at every basic block
# and at every load and store
for a in "$@"; do
  if [ "${prev:-}" = "--crate-name" ]; then
    case "$a" in
      octane|octane_http|octane_inst)
        exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
          -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores;;
    esac
  fi
  prev="$a"
done
exec "$@"
