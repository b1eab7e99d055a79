#!/bin/bash
# Nothing to install: checks compile what they need from /repo into .build.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence work .build
command -v java >/dev/null && command -v g++ >/dev/null && command -v make >/dev/null && test -r /opt/veriftools/tla/tla2tools.jar
