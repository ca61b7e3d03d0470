import sys,json
def add(pid, title, stmt, q, dom, why, files, anch, note, obs, part):
    p='/verif/props_data.py'; s=open(p).read()
    if "prop('%s'"%pid in s:
        i=s.index("prop('%s'"%pid); j=s.index("\nprop(",i+5) if s.find("\nprop(",i+5)!=-1 and s.find("\nprop(",i+5)<s.index("\nNA = 'A pure") else s.index("\nNA = 'A pure")
        s=s[:i]+s[j+1:]
    e="prop(%r, %r,\n %r,\n %r,\n %r,\n %r,\n %r,\n %r,\n note=%r, observe=%r)\n\n"%(pid,title,stmt,q,dom,why,files,anch,note,obs)
    i=s.index("NA = 'A pure"); s=s[:i]+e+s[i:]; open(p,'w').write(s)
    c='/verif/checks.json'; d=json.load(open(c)); d[pid]=part; json.dump(d,open(c,'w'),indent=1)
