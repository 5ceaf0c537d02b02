"""mkseed.py: seeds as (id, prop, [(file, [(old,new)...])], needs, breaks, demo body); works in a scratch copy of /repo"""
import os,sys,subprocess,json,textwrap,shutil,re
sys.path.insert(0,'/tmp'); sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from ed import edit
SH='#!/bin/bash\n# run with cwd /repo\nexec python3 -B "$(dirname "$0")/demo.py"\n'
HEAD='''import io, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import pyembroidery
from pyembroidery import *
from pyembroidery import EmbPattern, EmbThread


def dump(writer, p, **settings):
    f = io.StringIO() if getattr(writer, "WRITE_FILE_IN_TEXT_MODE", False) else io.BytesIO()
    EmbPattern.write_embroidery(writer, p, f, settings)
    return f.getvalue()


def load(reader, data, **settings):
    if getattr(reader, "READ_FILE_IN_TEXT_MODE", False):
        f = io.StringIO(data if isinstance(data, str) else data.decode("utf8"))
    else:
        f = io.BytesIO(data.encode("utf8") if isinstance(data, str) else data)
    return EmbPattern.read_embroidery(reader, f, settings)


def fail(msg):
    print("FAIL: %s" % msg)
    sys.exit(1)


'''
WT='/tmp/wt_src'
def git(*a): return subprocess.check_output(['git','-C',WT]+list(a))
def fresh():
    if not os.path.isdir(WT): subprocess.check_call(['git','clone','-q','/repo',WT])
    git('fetch','-q'); git('reset','-q','--hard',subprocess.check_output(['git','-C','/repo','rev-parse','HEAD']).decode().strip())
def own_lines(diff):
    """removed lines that my own commits added"""
    bad=[]
    f=None;n=0
    for l in diff.decode('utf8','replace').splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-'):
            b=git('blame','-s','-L','%d,%d'%(n,n),'HEAD','--',f).decode()
            if not b.lstrip('^').startswith('4614fc7'): bad.append(l)
            n+=1
        elif l.startswith(' '): n+=1
    return bad
def seed(id, prop, edits, needs, breaks, demo):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    fresh()
    try:
        for f,prs in edits: edit(WT+'/pyembroidery/'+f, prs)
        diff=git('diff')
    finally:
        git('checkout','-q','--','.')
    bad=own_lines(diff)
    open(d+'/patch.diff','wb').write(diff)
    open(d+'/demo.sh','w').write(SH)
    open(d+'/demo.py','w').write(HEAD+textwrap.dedent(demo).strip()+'\n')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    print(id, len(diff.splitlines()),'lines', ('CHANGES OWN LINES %r'%bad) if bad else '')
