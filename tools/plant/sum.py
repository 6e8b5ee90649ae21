import sys,re
v={};u={}
other=[]
for l in open(sys.argv[1],errors='replace'):
    m=re.match(r'(violated|undecided) \[([^\]]*)\] (\S+) \[([^\]]*)\]',l)
    if m:
        for p in m.group(2).split():
            d=v if m.group(1)=='violated' else u
            if m.group(1)=='violated' and m.group(3)=='complete-before-reach' and m.group(4) in('bit.Fetch','bit.Provide','class.ProvideEntity'): continue
            d[p]=d.get(p,0)+1
    elif 'panic' in l or 'UNDEC' in l: other.append(l.strip()[:100])
print('CAUGHT' if sys.argv[2] in v else 'missed', 'V',' '.join(sorted(v)),'| U',' '.join(sorted(u)), other[:1])
