#!/bin/sh
# compiler launcher: add memory-access instrumentation to compile steps only
exec "$@" -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -Wno-tsan
