#!/bin/bash
# developer tool: list the fix commits of /repo
git -C /repo log --format='%h %s' | grep ' fix: '
