#!/bin/sh
# dev helper: show failures of functions matching $1
cd /verif; python3 vk/dev.py > /tmp/v/dev.log 2>&1
if [ -n "$1" ]; then awk -v p="$1" '/^== /{f=($0 ~ p)} f' /tmp/v/dev.log | head -${2:-60}; fi
grep "^== " /tmp/v/dev.log | tr '\n' ' '; tail -1 /tmp/v/dev.log
