#!/bin/bash
# Every check builds what it needs from /repo's working tree; here only the tools are looked for.
set -e
RUSTUP_TOOLCHAIN=nightly-2020-07-01 rustc --version
command -v tlc >/dev/null
echo ok
