import subprocess
m="""f60601c C07
365f3c9 C01
39a55f6 C01
a365ca5 C02
bf912f2 C02
7ba5a09 C02
7d45211 C16
985d5e2 C05
aa26bb2 C06
1079069 C06
3010f5a C06
815e424 C04
9fda61e C04
626989c C13
03dfe99 C03
a0971a2 C03
9a13762 C03
2aa03a8 C03
c5fb6a4 C03
ae4a602 C03
5353861 C16
dbe9930 C15
d95e18b C13
384f12c C07
100edec C08
0c1b080 C11
731246e C11
4e92d3c C14
afba609 C14
a678fff C14
664ae23 C14
e7263ea C13
6273684 C03
1a492dc C15
ed3c365 C15
93ffacb C03
61845f5 C03
3214d9b C02
35c19de C08
abf7fcd C09
d485fa2 C14
a862ef1 C14
9ab8548 C14
6659b70 C14
5b774c3 C15
0dab14e C16
4c718e1 C16
922a2dc C16"""
out=["# Genuine defects of pyNLO-org/PyNLO found by these checks. 'fixed:' entries suppress nothing.",
     "# No KNOWN-FINDING entries: every violation found on the unchanged tree was repaired."]
for l in m.split('\n'):
    c,p=l.split()
    s=subprocess.run(['git','-C','/repo','log','-1','--format=%s',c],capture_output=True,text=True).stdout.strip().replace('fix: ','')
    out.append('fixed: property=%s %s %s'%(p,c,s))
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
