#!/bin/bash
# check.sh <property> [--replay FILE]: rebuild from /repo and decide one property.
# Exit 0: held on everything explored. Exit 1: VIOLATION line. Anything else: an error of the check.
/verif/build.sh || exit 2
exec /verif/target/release/fincheck "$@"
