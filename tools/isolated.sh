#!/bin/bash
# Runs a command where /verif and /repo are copies (own mount namespace), so that it can go on while
# the real ones are edited. Usage: isolated.sh DIR COMMAND...   DIR (scratch, reused) holds the copies.
# FRESH=1 copies again the files of /verif (not its build output) and /repo's HEAD.
d=$1; shift
if [ ! -d "$d/verif" ]; then
  mkdir -p "$d"; cp -a /verif "$d/verif"; git clone -q /repo "$d/repo"; cp -a /repo/Cargo.lock "$d/repo/" 2>/dev/null
fi
[ -n "$FRESH" ] && git -C "$d/repo" fetch -q && git -C "$d/repo" reset -q --hard origin/HEAD
[ -n "$FRESH" ] && rsync -a --delete --exclude 'harness/target*' --exclude evidence /verif/ "$d/verif/" 2>/dev/null
exec unshare -m bash -c 'mount --bind "$0/verif" /verif && mount --bind "$0/repo" /repo && cd /verif && exec "$@"' "$d" "$@"
