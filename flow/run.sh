SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
export RUSTC_WORKSPACE_WRAPPER=/verif/flow/target/release/flow
T=$(mktemp -d /tmp/flowXXXX)
cd /repo && cargo +nightly check --offline --lib --target-dir $T "$@"
rm -rf $T
