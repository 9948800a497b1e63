#!/bin/sh
# check.sh PROP quick|thorough
cd "$(dirname "$0")" && exec python3 vk/check.py "$@"
