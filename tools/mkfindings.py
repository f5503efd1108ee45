import subprocess
L=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','d5ed543..HEAD'],capture_output=True,text=True).stdout.splitlines()
P={'installer stages':'C19','installer does not mistake':'C19','element assignment':'C01','fixing an axis':'C02','slicing DM over':'C02','arrays and slices':'C10','out of range':'C12','assigning from':'C14','Storage.equal':'C13','import failed when git rev':'C15','import failed when git printed':'C15','build-time version':'C17','recording the version':'C18','a recorded version':'C17','an interrupted':'C19','exported tags':'C16','compare the elements':'C13','an executable build':'C25','builds recording':'C18','git hooks got':'C16','the version\'s date':'C16'}
out=['''# Genuine defects of pearu/gcs that the checks found.
#   finding: property=<id> plan=<file>   recorded, not repaired; <file> holds the exact history
#   fixed: property=<id> <commit> <what failed>   repaired in /repo; suppresses nothing
''']
for n,p in (('C15-quoted-tag','C15'),('C15-undecodable-tag','C15'),('C16-branch-as-tag','C16')):
    import json; out.append("finding: property=%s plan=findings/%s.json %s"%(p,n,json.load(open("/verif/findings/%s.json"%n))["what"]))
out.append('')
for l in L:
    h,s=l.split(' ',1); s=s[5:]
    p=[v for k,v in P.items() if s.startswith(k)]
    assert len(p)==1,(s,p)
    out.append('fixed: property=%s %s %s'%(p[0],h,s))
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
