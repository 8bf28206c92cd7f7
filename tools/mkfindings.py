import subprocess
m="""15bfef7 P18
6a45384 P18
9c806bd P15
e3d5086 P18
6e8ba09 P21
3739026 P21
6d4f95e P19
d4bbd9e P21
0969291 P17
7bc507d P21
2056053 P36
1ea4371 P35
bc19ac4 P20
408d97f P20
adf9f86 P21
2cf9cb4 P17
64417f9 P35
2998ff8 P24
6f99856 P25
a1324be P25
bd7ae66 P25
e6ca685 P35
61dee0f P23
4b6df58 P33
3d9ec40 P33
e34e4ff P34
68e878a P35
ee042bf P27
2cab25f P26
355a5a5 P30
3d2a6fa P31
f1a2b97 P31
a48cc81 P28
2d679b0 P31
24bb5e0 P11
76ccfa0 P18
4e30c04 P18
3756dc1 P17
e866d59 P36
0ab594a P26
a33185c P28
8b4b8ef P29
b1c8d51 P37
aec34c4 P31"""
out=[l for l in open('/verif/known_findings.txt') if not l.startswith('fixed:') and l.strip()]
for l in m.splitlines():
    c,p=l.split(); s=subprocess.check_output(['git','-C','/repo','log','-1','--format=%s',c],text=True).strip().replace('fix: ','',1)
    out.append('fixed: property=%s %s %s\n'%(p,c,s))
open('/verif/known_findings.txt','w').writelines(out)
