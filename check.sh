#!/bin/bash
# bash check.sh <property> [quick|thorough]   |   bash check.sh replay <file>
cd "$(dirname "$0")" || exit 3
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
# fresh byte-code cache: what runs is /repo's current working tree
export PYTHONPYCACHEPREFIX=$T PYTHONHASHSEED=0 TMPDIR=${TMPDIR:-/tmp} LC_ALL=C.UTF-8
exec_rc=0
/opt/venv/bin/python -W ignore -m vf.main "$@" || exec_rc=$?
exit $exec_rc
