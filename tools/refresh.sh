#!/bin/bash
# refresh.sh: makes the patches of all planted bugs apply to /repo's HEAD again
for d in /verif/seeded/*/; do
  git -C /repo apply --check "$d/patch.diff" 2>/dev/null && continue
  t=$(mktemp -d /tmp/refresh-XXXXXX)
  git -C /repo worktree add -q --detach "$t/r" HEAD
  if (cd "$t/r" && patch -s -p1 --no-backup-if-mismatch < "$d/patch.diff") && git -C "$t/r" diff > "$t/p"; then
    cp "$t/p" "$d/patch.diff"; echo "refreshed $d"
  else
    echo "STALE $d"
  fi
  git -C /repo worktree remove --force "$t/r"; rm -rf "$t"
done
