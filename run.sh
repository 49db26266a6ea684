#!/bin/bash
# Decides one property from /repo's current source: run.sh ID [quick|thorough]
cd "$(dirname "$0")" || exit 2
bash build.sh || exit 2
export JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64
ASM=/opt/veriftools/java/bytecode
LIB=$(find "$HOME/.m2" /root/.m2 -name 'log4j-api-*.jar' 2>/dev/null | sort | tail -1)
exec "$JAVA_HOME/bin/java" -Xmx4g -Xss64m -cp "build:$ASM/asm-9.7.1.jar:$ASM/asm-tree-9.7.1.jar" -Dlibs="$LIB" ${SRC:+-Dsrc="$SRC"} sa.Main run "$1" "$PWD" $2
