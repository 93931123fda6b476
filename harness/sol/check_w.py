import sys
M=1<<256
def s(x): return x-M if x>>255 else x
n=0
for line in sys.stdin:
    f=line.split()
    a,b,m,*r=[int(x,16) for x in f[:-2]]
    def tdiv(x,y):
        q=abs(x)//abs(y)
        return q if (x<0)==(y<0) else -q
    sa,sb=s(a),s(b)
    w=[a+b,a-b,a*b,
       a//b if b else 0,a%b if b else 0,
       tdiv(sa,sb) if b else 0,sa-sb*tdiv(sa,sb) if b else 0,
       (a+b)%m if m else 0,a*b%m if m else 0,pow(a,b,m) if m else 0,
       pow(a,b,M),a<<b if b<256 else 0,a>>b if b<256 else 0,sa>>min(b,255)]
    w=[x%M for x in w]
    assert r==w,(line,[hex(x) for x in w])
    assert f[-2]==str(sa<sb).lower() and f[-1]==str(a<b).lower(),line
    n+=1
assert n==4000
print('interpreter words: %d cases agree with Python'%n)
