#!/bin/bash
# dev helper: t.sh MODULE TRACE  -> validate one trace
T=$(realpath $2); cd $(dirname "$(realpath "$0")")/../spec; TRACE=$T timeout 900 java -Xmx3g -Xss32m -XX:+UseSerialGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir /tmp/tlcm.$$ -cleanup -noGenerateSpecTE -config ${3:-$1.cfg} $1.tla 2>&1 | grep -v "^Semantic\|^Parsing\|^(Use\|^Warning: Please\|^Linting\|Running breadth\|^TLC2\|^$" | tail -${4:-15}
