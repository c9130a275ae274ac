#!/bin/bash
# new.sh ID: start a seeded bug folder from the template
d=/verif/seeded/$1; mkdir -p "$d"; t=$(dirname "$0")
cp "$t/demo.sh" "$t/Cargo.lock" "$d/"; cp /verif/harness/src/core.rs "$d/core.rs"
sed -i '/^#!\[allow/d' "$d/core.rs"
