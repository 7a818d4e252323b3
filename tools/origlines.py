#!/usr/bin/env python3
"""Lists planted bugs none of whose removed lines is a line of the original repository."""
import os,subprocess,re
os.chdir('/verif/seeded')
for d in sorted(os.listdir('.')):
    cur=None; ok=False; 
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): cur=l[6:].strip(); o=subprocess.run(['git','-C','/repo','blame','-s','HEAD','--',cur],capture_output=True,text=True).stdout.split('\n'); o={x.split(') ',1)[1].strip() for x in o if x.startswith('^562df27') and ') ' in x}
        elif l.startswith('-') and l[1:].strip() in o and len(l.strip())>3: ok=True
    if not ok: print(d)
