#!/bin/bash
# with_revert.sh COMMIT CMD...: run CMD on /repo with one commit of ours undone (work tree only)
c=$1; shift
git -C /repo diff "$c" "$c~1" | git -C /repo apply - || exit 9
"$@"
git -C /repo checkout -q -- .
