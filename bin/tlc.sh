#!/bin/sh
# tlc.sh MODULE CFG METADIR [args]   (run in /verif/spec)
M=$1; C=$2; D=$3; shift 3
exec java -XX:+UseParallelGC -Xss64m -Xmx${TLC_MEM:-12g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -nowarning -workers ${TLC_WORKERS:-8} -metadir $D -config $C "$@" $M
