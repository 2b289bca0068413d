#!/bin/bash
# Nothing is kept between checks: each one builds what it needs.  This only
# verifies that the tools are there.
set -e
cargo --version
cargo kani --version
verus --version | head -2
python3 --version
