import json,glob,os
t='| change | property | needs | breaks |\n|---|---|---|---|\n'
for d in sorted(glob.glob('seeded/*')):
    m=json.load(open(d+'/meta.json')); t+='| %s | %s | %s | %s |\n'%(os.path.basename(d),m['property'],m['needs'],m['what_it_breaks'])
t+='''
Each is caught by the check of its own property, by a failed obligation; the driver of the same property then finds a
failing input for all of them (replayed against the code built with sanitizers). `python3 tools/seedtable.py` rewrites
this table from the meta data.
'''
s=open('DESIGN.md').read()
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE','<!-- seeds -->\n'+t+'<!-- /seeds -->')
else:
    a=s.index('<!-- seeds -->'); b=s.index('<!-- /seeds -->')
    s=s[:a]+'<!-- seeds -->\n'+t+s[b:]
open('DESIGN.md','w').write(s)
