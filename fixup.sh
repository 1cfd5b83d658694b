#!/bin/bash
# fold the working tree changes of /repo into the fix: commit whose subject contains $1
cd /repo && git commit -qam wip && GIT_SEQUENCE_EDITOR="python3 -c \"
import sys
p=sys.argv[1];L=open(p).read().splitlines()
w=[l for l in L if l.endswith(' wip')][0];L.remove(w)
i=[k for k,l in enumerate(L) if '''$1''' in l][0]
L.insert(i+1,'fixup '+w.split(' ',1)[1])
open(p,'w').write(chr(10).join(L)+chr(10))
\"" git rebase -qi 78a6624
