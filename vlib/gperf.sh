#!/bin/sh
# libgst/sym.c declares the lookup function with gperf 3.0's "unsigned int len";
# gperf 3.1 writes size_t. Only used when libgst/builtins.gperf is edited.
out=$(/usr/bin/gperf "$@") || exit 1
printf '%s\n' "$out" | sed 's/\bsize_t len\b/unsigned int len/'
