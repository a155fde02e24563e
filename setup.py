#!/usr/bin/env python3
"""Builds every harness once from /repo's working tree, so that the checks find
them in build/ (a check builds again whatever a change in /repo made stale)."""
import check, os, sys
need = set()
for s in check.SPECS.values():
    for j, _ in check.select_jobs(s, 'quick'):
        if j.get('src'):
            need.add((j['src'], j['variant']))
        for x in j.get('tools', []):
            need.add(tuple(x))
th = check.tree_hash([check.REPO + '/lib', check.REPO + '/app', check.HERE + '/harness', check.HERE + '/shim'])
try:
    check.build(need, os.path.join(check.HERE, 'build'), th)
except SystemExit:
    # a tree that does not compile is reported by the checks concerned
    print('setup: not everything could be built')
print('setup: %d binaries' % len(need))
