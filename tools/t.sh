#!/bin/bash
# dev helper: t.sh template [verus args]
t=$1; shift
python3 /verif/tools/vx.py /verif/verus/$t.rs ${REPO:-/repo} > /tmp/v_$t.rs 2>/tmp/v_$t.rep || { tail -5 /tmp/v_$t.rep; exit 2; }
verus /tmp/v_$t.rs --rlimit ${RL:-30} "$@" 2>&1 | tail -${N:-60}
