#!/bin/sh
# check.sh Cxx: builds the verifier when it is missing or older than its source, and runs the check of a property
cd "$(dirname "$0")" || exit 2
sh ./setup.sh >/dev/null 2>/tmp/gv-setup.$$ || { cat /tmp/gv-setup.$$; rm -f /tmp/gv-setup.$$; exit 2; }
rm -f /tmp/gv-setup.$$
exec ./build/gv check "$1"
