#!/bin/bash
# nothing has to be built in advance; check that the tools are there
command -v verus >/dev/null && cargo +nightly --version && python3 --version
