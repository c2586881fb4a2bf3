#!/bin/bash
# usage: vx.sh UNIT [verus options]: extract and verify one unit, for working on the contracts
cd /verif; W=${W:-/tmp/w}; mkdir -p $W
./extract/target/debug/extract --repo ${R:-/repo} --contracts contracts --unit $1 --out $W/$1.rs --index $W/$1.json --external "$X" || exit 1
grep -v '"status": "\(ok\|assumed\)", "missing": \[\], "inl' $W/$1.json | grep '"status"\|lost.*\["'
cd $W; U=$1; shift
verus $U.rs --triggers-mode silent "$@" 2>&1 | grep -v '^warning: \(field\|1 warn\)\|context synt\|inconsistent_fields\|wire.rs:340:1\|^ *| \^\^\^*$\|pub enum ParseError\|^  *|$'
