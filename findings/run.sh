#!/bin/bash
# Demonstrates the defects (see DESIGN.md) against the classes in /repo/target/classes. Usage: run.sh [NAME...]
export JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
CP=/repo/target/classes:$(ls ~/.m2/repository/org/apache/logging/log4j/log4j-api/*/log4j-api-*.jar | head -1)
$JAVA_HOME/bin/javac -nowarn -cp "$CP" -d "$d" "$(dirname "$0")/Findings.java" 2>&1 | grep -v '^Note' 
[ $# -eq 0 ] && set -- unended stoprace dupmapping noevent sharedqueue builderreuse configreuse refusedoffer customevent restartexit exitrace fanout initialends poolleak nullpayload boundrace duprace queuesize initialentry
for n in "$@"; do echo -n "$n: "; timeout 60 $JAVA_HOME/bin/java -cp "$d:$CP" com.webotech.statemachine.strategy.Findings "$n" 2>/dev/null | tail -1; done
