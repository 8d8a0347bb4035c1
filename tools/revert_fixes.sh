#!/bin/bash
# Detection demonstration: takes each fix commit recorded in known_findings.txt back (one at a time, in the
# working tree only), runs the check of its property and reports whether the old defect is found.
# usage: tools/revert_fixes.sh [Cxx ...]
cd /verif
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 2; }
grep '^fixed:' known_findings.txt | while read -r _ prop commit what; do
  p=${prop#property=}
  [ $# -gt 0 ] && { echo " $* " | grep -q " $p " || continue; }
  if ! git -C /repo show "$commit" -- src | git -C /repo apply -R --3way 2>/dev/null; then
    git -C /repo reset -q --hard HEAD
    echo "$p $commit: not revertible on its own"; continue
  fi
  git -C /repo reset -q
  out=$(./run.sh "$p" 2>&1 | grep -E '^VIOLATION|held|build failed|error' | head -1)
  git -C /repo checkout -q -- .
  echo "$p $commit: ${out:0:150}"
done
