cargo +nightly build --release --offline 2>&1 | grep -E "^error" -A9
FLOW_ROOT="$1" timeout ${TMO:-120} bash run.sh > /tmp/out.txt 2>/tmp/err.txt; grep -E "panicked|overflow" -A3 /tmp/err.txt
python3 show.py /tmp/out.txt
