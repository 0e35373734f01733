#!/bin/bash
# run TLC on a model in spec/ (dev helper): tools/mc.sh MCElem
cd "$(dirname "$0")/../spec" || exit 2
C=$(ls -d ../build/classes-*/ | head -1)
java -XX:+UseParallelGC -Xss64m -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:$C tlc2.TLC -workers 8 -metadir /tmp/mc-$$ -nowarning -deadlock -config $1.cfg $1.tla 2>&1 | grep -v "^Parsing\|^Semantic\|^Linting"
rm -rf /tmp/mc-$$
