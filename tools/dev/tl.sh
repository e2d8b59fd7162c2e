#!/bin/bash
# tl.sh Module trace
cd /verif/spec; TRACE=$2 java -XX:+UseSerialGC -Xss64m -Xmx3g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 1 -metadir /tmp/md.$$ -config $1.cfg $1.tla | grep -v "^Linting\|^Semantic\|^Parsing" | tail -${3:-30}
