#!/bin/bash
# check.sh <property> [tier]   decides one property on /repo's working tree
# check.sh replay <file>       repeats one recorded violation
cd "$(dirname "$0")" || exit 2
V=$PWD; T=$V/target; mkdir -p evidence
parts_of() { case $1 in C17|C18|C19|C21|C30|C31) echo math;; C33) echo math sdk;; C20) echo contract sdk;; C34) echo contract ts;; C36) echo contract token;; C35) echo contract sdk ts;; *) echo contract;; esac; }
bin_of() { case $1 in *ts) echo "node $V/tscheck/main.mjs";; math*) echo "$T/mathcheck/release/mathcheck";; *) echo "$T/monitor/release/monitor";; esac; }
if [ "$1" = replay ]; then
    p=$(sed -n 's/^prop=//p' "$2" | head -1); parts=$(parts_of "$p")
    ./build.sh $parts >&2 || exit 3
    exec $(bin_of "$parts") replay "$2" --target "$T" --sdk /repo/sdk
fi
p=$1; tier=${2:-${VERIF_TIER:-quick}}; parts=$(parts_of "$p")
rm -f "$V/evidence/$p.json"
./build.sh $parts >&2 || { echo "the code does not build" >&2; exit 3; }
exec $(bin_of "$parts") run --prop "$p" --tier "$tier" --seed "${VERIF_SEED:-1}" --out "$V/evidence" --known "$V/known-findings.txt" --target "$T" --sdk /repo/sdk
