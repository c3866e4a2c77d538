#!/bin/bash
# commit all tracked changes in /repo as a fix
cd /repo && git add -u && git commit -qm "fix: $1" && git log --oneline | head -1
