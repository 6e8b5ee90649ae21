exec(open('/tmp/plant/w1.py').read()); a=R
exec(open('/tmp/plant/w2.py').read()); R=[x for x in a+R if x['id'] in ('C18b-detail','C19c-skip','C01d-rev','C16c-sameobj')]
