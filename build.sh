#!/bin/bash
# Builds the analyser into /verif/build (git-ignored). Does nothing when it is up to date.
set -e
cd "$(dirname "$0")"
export JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64
ASM=/opt/veriftools/java/bytecode
CP=$ASM/asm-9.7.1.jar:$ASM/asm-tree-9.7.1.jar
sum=$(cat analyzer/src/sa/*.java | sha256sum)
if [ "$(cat build/sum 2>/dev/null)" != "$sum" ]; then
  rm -rf build
  mkdir -p build
  "$JAVA_HOME/bin/javac" -nowarn -d build -cp "$CP" analyzer/src/sa/*.java
  echo "$sum" > build/sum
fi
