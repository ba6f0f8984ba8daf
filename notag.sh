#!/bin/bash
# developer helper: run a command with the vcheck-pass tag hidden (cmake derives its version from tags)
T=$(git -C /repo rev-parse -q --verify refs/tags/vcheck-pass || true)
[ -n "$T" ] && git -C /repo update-ref refs/vp/vcheck-pass "$T" && git -C /repo update-ref -d refs/tags/vcheck-pass
restore() { [ -n "$T" ] && git -C /repo update-ref refs/tags/vcheck-pass "$T" && git -C /repo update-ref -d refs/vp/vcheck-pass; }
trap restore EXIT
"$@"
