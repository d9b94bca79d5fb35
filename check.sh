#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 5
[ -x build/hiopdump ] && [ build/hiopdump -nt tool/hiopdump.cpp ] || bash tool/build.sh >&2 || exit 5
exec python3 analysis/framework.py "$@"
