#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" && exec python3-vt -m vt.check "$@"
