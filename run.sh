#!/bin/bash
# usage: run.sh <property>   decides one property for /repo's working tree
cd "$(dirname "$0")" || exit 2
[ -x bin/kcheck ] || bash setup.sh >&2 || exit 2
exec bin/kcheck -prop "$1" -repo /repo -verif "$PWD"
