#!/bin/bash
# Nothing has to be built in advance: every check builds itself from /repo's working tree.
cd "$(dirname "$0")" && command -v go >/dev/null
