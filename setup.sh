#!/bin/bash
# Nothing is kept between runs: every check builds what it needs. This only shows that it can.
cd "$(dirname "$0")" && test -f check.sh && test -d harness/vh && test -x /opt/veriftools/go1.23.12/bin/go && echo ready
