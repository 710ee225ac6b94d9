#!/usr/bin/env python3
"""newseed.py SEED PROPERTY FILE NEEDS BREAKS : stores the uncommitted change of the scratch copy
/tmp/seedrepo (a git worktree copy of /repo) as a planted bug; demo.cpp is taken from stdin."""
import json,os,shutil,subprocess,sys
sid,prop,needs,breaks=sys.argv[1:5]
d=f'/verif/seeded/{sid}'
os.makedirs(d,exist_ok=True)
open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','-C','/tmp/seedrepo','diff'],text=True))
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
open(f'{d}/demo.cpp','w').write(sys.stdin.read())
shutil.copy('/verif/tools/demo_template.sh',f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh',0o755)
subprocess.check_call(['git','-C','/tmp/seedrepo','checkout','-q','--','.'])
print(open(f'{d}/patch.diff').read())
