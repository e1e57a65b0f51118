# Build settings of the simulator, whatever the caller's environment says.
for v in $(compgen -e | grep -E '^(CARGO_PROFILE_|CARGO_BUILD_|CARGO_TARGET_|CARGO_ENCODED_|CARGO_INCREMENTAL$|RUSTFLAGS$|RUSTC$|RUSTC_WRAPPER$|RUSTC_WORKSPACE_WRAPPER$)'); do
    unset "$v"
done
export CARGO_NET_OFFLINE=true
