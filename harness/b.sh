source /opt/vp/env.sh; cd /verif/harness; export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0; cargo build --offline 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${1:-60}
