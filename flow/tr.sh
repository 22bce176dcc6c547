# traces one unit of the scratch copy: tr.sh FILTER
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib RUSTC_WORKSPACE_WRAPPER=/verif/flow/target/release/flow FLOW_ROOT="$1" FLOW_OUT=/tmp/refac/u2 RUST_MIN_STACK=536870912
T=$(mktemp -d /tmp/flowXXXX)
cd ${RW:-/tmp/refac/w} && cargo +nightly check --offline --lib --target-dir $T > /tmp/refac/err.txt 2>&1
rm -rf $T
