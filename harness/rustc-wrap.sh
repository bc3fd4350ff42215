#!/bin/bash
# rustc wrapper: the harness executables also leave their whole-program LLVM IR behind.
if [ -n "$CARGO_BIN_NAME" ] && [ "$CARGO_PKG_NAME" = hx ]; then
    exec "$@" --emit=llvm-ir
fi
exec "$@"
