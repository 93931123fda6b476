import sys, math
n=0
for line in sys.stdin:
    f=line.strip().split(',')
    a,b,c,sh=map(int,f[:4])
    assert int(f[4])==a+b and int(f[5])==a*b and int(f[6])==a<<sh and int(f[7])==a>>sh
    assert int(f[8])==a&((1<<sh)-1) and int(f[9])==a.bit_length() and int(f[10],16)==a
    if b:
        q,r,g=map(int,f[11].split())
        assert (q,r)==divmod(c,b) and g==math.gcd(a,b)
        if f[12]!='x': assert int(f[12])==pow(a,c,b),(a,c,b)
        if b>1:
            try: w=pow(a,-1,b)
            except ValueError: w=None
            assert (None if f[13]=='none' else int(f[13]))==w,(a,b,f[13],w)
    n+=1
print("ok",n)
