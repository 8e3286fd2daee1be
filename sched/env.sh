export RUSTC_WRAPPER=$VERIF_DIR/sched/wrapper.sh
