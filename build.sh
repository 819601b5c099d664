#!/bin/bash
# Builds the simulator with the code in /repo's working tree. Prints the log only on failure.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
mkdir -p target
exec 9>target/.build-lock
flock 9
# the example server's sources, with an entry point that the simulator can call
rm -rf target/gen/example.new
mkdir -p target/gen/example.new
cp -r /repo/example-server/src/. target/gen/example.new/ || exit 2
echo 'pub fn run_main() -> impl std::process::Termination { main() }' >> target/gen/example.new/main.rs
rm -rf target/gen/example
mv target/gen/example.new target/gen/example
# whatever the timestamps say: the code under test is always compiled anew
rm -rf target/debug/.fingerprint/vt6-* target/debug/.fingerprint/vt6_* target/debug/.fingerprint/example-* target/debug/.fingerprint/dst-*
if ! cargo build --offline -j 8 >target/build.log 2>&1; then
    grep -E -A20 '^error' target/build.log | head -150 >&2
    echo "harness error: the simulator does not build with /repo's working tree" >&2
    exit 2
fi
