#!/bin/bash
# usage: check.sh ID [runner options]; VERIF_SEED and VERIF_TIER as in the task
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$1; shift
python3 "$ROOT/tools/build.py" "$ID" || exit 3
mkdir -p "$ROOT/evidence"
export ASAN_OPTIONS=detect_leaks=0:detect_odr_violation=0:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:malloc_context_size=1:detect_stack_use_after_return=0
export UBSAN_OPTIONS=print_stacktrace=1
# the drivers find the libraries they were linked with by their rpath
unset LD_LIBRARY_PATH
exec "$ROOT/build/bin/$ID" --root "$ROOT" --evidence "$ROOT/evidence/$ID.json" "$@"
