#!/bin/bash
# Re-make the patches of planted bugs that no longer apply to /repo's HEAD.
for d in /verif/seeded/*/; do
  git -C /repo apply --check $d/patch.diff 2>/dev/null && continue
  w=$(mktemp -d); cp -a /repo $w/repo
  if (cd $w/repo && patch -p1 -F3 -s < $d/patch.diff && find . -name '*.orig' -delete); then git -C $w/repo diff > $d/patch.diff; echo "remade $d"; else echo "FAILED $d"; fi
  rm -rf $w
done
