import sys
def add(text):
    p='/verif/checks.py'; s=open(p).read().rstrip(); assert s.endswith('}'); open(p,'w').write(s[:-1]+text.strip('\n')+'\n}\n')
