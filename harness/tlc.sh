#!/bin/sh
# run TLC by hand on a module of spec/:  harness/tlc.sh MODULE [CFG] [TLC options]
cd /verif/spec
m=$1; c=$1; shift; case "$1" in -*|"") ;; *) c=$1; shift;; esac
java -XX:+UseParallelGC -Xss64m -cp /verif/build:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir /tmp/tlcmd.$$ -noGenerateSpecTE -config $c.cfg "$@" $m.tla | grep -v "^Loading\|^Parsing\|^Semantic"
