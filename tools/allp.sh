#!/bin/bash
# usage: allp.sh "C01 C02" "seeds"
for s in $2; do for p in $1; do VMON_CLI=/tmp/goslice VERIF_SEED=$s VERIF_TIER=${T:-quick} /tmp/vmon run $p /tmp/vall 2>&1 | grep -v "^goroutine" | cut -c1-400 | sed "s/^/[s$s] /" ; done; done
