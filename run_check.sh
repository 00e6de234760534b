#!/bin/bash
# run_check.sh Cnn quick|thorough       decide a property on /repo's working tree
# run_check.sh Cnn case SEED N          replay one history
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
. ./env.sh
id="$1"; mode="$2"
export PHX_HOME="$here"
mkdir -p work evidence
rm -f "$here/evidence/$id.json"
# C22 runs under AddressSanitizer, the others in an ordinary optimised build
if [ "$id" = C22 ]; then
  export CARGO_TARGET_DIR="$here/harness/target-asan" RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address"
  target="--features asan --target x86_64-unknown-linux-gnu"
  bin="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/release/phxmon"
else
  export CARGO_TARGET_DIR="$here/harness/target"
  target=""
  bin="$CARGO_TARGET_DIR/release/phxmon"
fi
log="$here/work/build-$id.txt"
if ! (cd harness && cargo build --release --offline --locked $target >"$log" 2>&1); then
  # the compiler itself was killed or hit a race with another build: once more
  if ! (cd harness && cargo build --release --offline --locked $target >"$log" 2>&1); then
    tail -40 "$log"
    echo "inconclusive: the harness does not build against /repo"
    exit 3
  fi
fi
unset RUSTC_BOOTSTRAP
export ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=4096:log_path=$here/work/asan-$id"
[ "$id" = C22 ] || ulimit -v 27000000
if [ "$mode" = case ]; then
  exec "$bin" case "$id" "$3" "$4"
fi
rm -f "$here"/work/asan-$id.* "$here/work/current-$id".*
"$bin" check "$id" "$mode"
rc=$?
case $rc in
  0|1|3) exit $rc ;;
  99|132|134|135|136|139)
    # the sanitizer or the kernel stopped the program under test
    f="$here/work/$id-crash.txt"
    {
      echo "property: $id"
      echo "the process executing the program ended abnormally (exit code $rc)"
      echo "histories being executed: $(cat "$here/work/current-$id".* 2>/dev/null | tr '\n' ' ')"
      echo "replay: bash /verif/run_check.sh $id case SEED CASE"
      cat "$here"/work/asan-$id.* 2>/dev/null | head -80
    } >"$f"
    head -12 "$f"
    echo "VIOLATION property=$id replay=$f"
    exit 1 ;;
  *) echo "inconclusive: exit code $rc"; exit 3 ;;
esac
