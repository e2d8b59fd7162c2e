#!/bin/bash
cd /verif/spec; timeout ${3:-120} java -XX:+UseParallelGC -Xss64m -Xmx5g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 8 -metadir /tmp/mdm.$$ -config ${2:-$1.cfg} $1.tla | grep -v "^Linting\|^Semantic\|^Parsing" | tail -25 | cut -c1-600; rm -rf /tmp/mdm.$$
