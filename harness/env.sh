# development environment: the flags the checks build with
export RUSTUP_TOOLCHAIN=nightly-2025-04-24 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="-C target-cpu=x86-64-v3 -C target-feature=+aes,+pclmulqdq --cfg binius_cheating_prover" CARGO_TARGET_DIR=/verif/target
