# sourced by check and setup.sh
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="${KV_TARGET:-$PWD/target}"
export CARGO_NET_OFFLINE=true
unset CARGO_BUILD_RUSTFLAGS
export RUSTFLAGS="--cap-lints allow"
# kvsafe is built with the address sanitizer, which needs the nightly compiler
export ASAN_OPTIONS=halt_on_error=0:detect_leaks=0:suppress_equal_pcs=0:log_path=/dev/null
# and kvrace with the thread sanitizer and its own build of the standard library
tsan_log=/dev/null
case " $* " in *" --replay "*) tsan_log=stderr;; esac
export TSAN_OPTIONS=halt_on_error=0:exitcode=0:suppress_equal_stacks=0:suppress_equal_addresses=0:report_thread_leaks=0:history_size=4:log_path=$tsan_log
nightly() {
  local bin=$1 dir=$2 flags=$3
  shift 3
  RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="$RUSTFLAGS $flags" \
    cargo build --offline --locked --release --quiet --manifest-path harness/Cargo.toml --target x86_64-unknown-linux-gnu --target-dir "$CARGO_TARGET_DIR/$dir" --bin "$bin" "$@" >&2
}
build() {
  local a=() b
  for b in "$@"; do [ "$b" = kvsafe ] || [ "$b" = kvrace ] || a+=(--bin "$b"); done
  if [ ${#a[@]} -gt 0 ]; then
    cargo build --offline --locked --release --quiet --manifest-path harness/Cargo.toml "${a[@]}" >&2 || return 1
  fi
  for b in "$@"; do
    case $b in
      kvsafe) nightly kvsafe asan "-Zsanitizer=address -Zsanitizer-recover=address --cfg kv_asan" || return 1;;
      kvrace) nightly kvrace tsan "-Zsanitizer=thread --cfg kv_tsan" -Zbuild-std || return 1;;
    esac
  done
}
binary() {
  case $1 in
    kvsafe) echo "$CARGO_TARGET_DIR/asan/x86_64-unknown-linux-gnu/release/kvsafe";;
    kvrace) echo "$CARGO_TARGET_DIR/tsan/x86_64-unknown-linux-gnu/release/kvrace";;
    *) echo "$CARGO_TARGET_DIR/release/$1";;
  esac
}
