#!/bin/bash
# [SRC=tree] [OUT=dir] [HOOKS=hooks.rs] tools/newseed.sh NAME PROPERTY CRATEDEPS NEEDS BREAKS: stores /repo's uncommitted change as seeded/NAME and undoes it.
# CRATEDEPS: lines of Cargo.toml dependencies ("\n" separated). The demo program is read from stdin.
set -e
# With HOOKS the demo uses grafbase_sdk::vmc_hooks (cfg vmc_hooks), from a copy of that file beside it.
src=${SRC:-/repo}
d=${OUT:-/verif/seeded}/$1; mkdir -p $d
git -C $src diff > $d/patch.diff
git -C $src checkout -q -- .
[ -n "$HOOKS" ] && cp "$HOOKS" $d/hooks.rs
cat > $d/main.rs
printf "$3\n" > $d/deps.toml
python3 - "$2" "$4" "$5" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
cat > $d/demo.sh <<'D'
#!/bin/bash
# Builds main.rs against the crates in /repo (deps.toml) in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
unset CARGO_TARGET_DIR
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/.cargo" "$d/hack/src" "$d/scratch"
printf 'paths = ["hack"]\n' > "$d/.cargo/config.toml"
printf '[package]\nname = "grafbase-workspace-hack"\nversion = "0.1.0"\nedition = "2021"\n[lib]\n[features]\n' > "$d/hack/Cargo.toml"
: > "$d/hack/src/lib.rs"
{ printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[profile.dev]\ndebug = 0\n[dependencies]\n'; cat "$here/deps.toml"; } > "$d/Cargo.toml"
cp "$here/main.rs" "$d/src/main.rs"
cp /opt/vp/ws/Cargo.lock "$d/Cargo.lock"
export RUSTFLAGS="--cfg tracing_unstable" CARGO_INCREMENTAL=0 TMPDIR="$d/scratch"
[ -f "$here/hooks.rs" ] && export VMC_HOOKS_GRAFBASE_SDK="$here/hooks.rs" RUSTFLAGS="$RUSTFLAGS --cfg vmc_hooks"
cd "$d" || exit 3
cargo run --offline --quiet > "$d/out" 2>&1
rc=$?
tail -20 "$d/out"
exit $rc
D
chmod +x $d/demo.sh
