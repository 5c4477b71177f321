#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS : take /repo's uncommitted change as the patch of seeded/ID, then undo it"""
import sys,os,subprocess,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); i,p,n,w=sys.argv[1:5]
d=V+'/seeded/'+i; os.makedirs(d,exist_ok=True)
o=subprocess.run('git -C /repo diff',shell=True,stdout=subprocess.PIPE).stdout; assert o; open(d+'/patch.diff','wb').write(o)
json.dump({'property':p,'needs':n,'what_it_breaks':w},open(d+'/meta.json','w'),indent=1)
subprocess.run('git -C /repo checkout -- .',shell=True)
