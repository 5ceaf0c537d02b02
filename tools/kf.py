import json,subprocess
log={l.split(' ',1)[1]:l.split(' ',1)[0] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()}
P={'color_break lookahead':'C03','tie-on and tie-off':'C06','default threads and needles':'C04','an ignored leading':'C04','DST has no speed':'C12','DST header':'C12','U01 must not lose':'C17','XXX must write':'C18','XXX has no speed':'C18','TBF name':'C19','TBF must not write':'C19','TBF has no speed':'C19','JEF needs':'C14','interpolate_trims must':'C14','interpolate_duplicate':'C15','PES sections':'C15','a PEC design':'C15','PEC label':'C15'}
try: P.update(json.load(open('/tmp/kf_extra.json')))
except FileNotFoundError: pass
out=[]
old=[e for e in json.load(open('/verif/known_findings.json')) if e['status']=='known']
for m,h in reversed(list(log.items())):
    if not m.startswith('fix:'): continue
    t=m[5:]
    k=[v for p,v in sorted(P.items(),key=lambda q:-len(q[0])) if t.startswith(p)]
    assert k,t
    out.append({'property':k[0],'status':'fixed','key':h,'what':'fixed: property=%s %s %s'%(k[0],h,t)})
json.dump(out+old,open('/verif/known_findings.json','w'),indent=1); open('/verif/known_findings.json','a').write('\n')
print(len(out))
