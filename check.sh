#!/bin/bash
# usage: check.sh ID [quick|thorough] | check.sh --build
# Builds the explorer against /repo's working tree and runs the check of one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export CARGO_NET_OFFLINE=true
[ $# -ge 2 ] && export VERIF_TIER=$2

build() {
    local dir=$1 stamp now
    stamp=$dir/target/.repo-hash
    # cargo trusts time stamps; the content of the working tree decides here
    now=$(cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 \
        | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    now="$now $(cd "$here" && find harness macros -name target -prune -o -type f -print0 2>/dev/null \
        | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
    mkdir -p "$dir/target"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        rm -f "$stamp"
        (cd "$dir" && cargo clean --offline --release -p ikal -p ikal-derive -p ikalmc -p ikalmc-macros) >/dev/null 2>&1
        if ! (cd "$dir" && cargo build --release --offline) >"$dir/target/build.log" 2>&1; then
            return 1
        fi
        printf '%s' "$now" >"$stamp"
    fi
    return 0
}

locked_build() {
    local dir=$1
    mkdir -p "$dir/target"
    exec 9>"$dir/target/.lock"
    flock 9
    build "$dir"
    local rc=$?
    flock -u 9
    exec 9>&-
    return $rc
}

if [ "$1" = --build ]; then
    locked_build "$here/harness" || { tail -50 "$here/harness/target/build.log" >&2; exit 2; }
    if [ -d "$here/macros" ]; then
        locked_build "$here/macros" || { tail -50 "$here/macros/target/build.log" >&2; exit 2; }
    fi
    exit 0
fi

id=$1
if ! locked_build "$here/harness"; then
    echo "error of the check: the explorer doesn't build against /repo" >&2
    tail -50 "$here/harness/target/build.log" >&2
    exit 2
fi
if [ "$id" = C19 ]; then
    # a program of its own: that the invocations compile is a part of the property
    if ! locked_build "$here/macros"; then
        mkdir -p "$here/replays" "$here/evidence"
        cp "$here/macros/target/build.log" "$here/replays/C19-build.replay"
        cat >"$here/evidence/C19.json" <<EOF
{
 "property": "C19", "tier": "${VERIF_TIER:-quick}", "seed": ${VERIF_SEED:-1}, "level": "model_checking",
 "coverage": { "states": 1, "transitions": 1, "traces_validated_against_impl": 1, "exhaustive": false,
  "rule": "the invocations of the macros don't compile any more, see replays/C19-build.replay" },
 "assumptions": [], "wall_s": 0, "violations": 1
}
EOF
        echo "VIOLATION property=C19 replay=$here/replays/C19-build.replay"
        grep -m 5 -A 6 '^error' "$here/macros/target/build.log" | cut -c1-300
        exit 1
    fi
    exec "$here/macros/target/release/ikalmc-macros" check C19
fi
exec "$here/harness/target/release/ikalmc" check "$id"
