"""Derive the letter-case table (code points < U+0250) from Python's Unicode database.
Two code points are the same letter when they have the same fold; only folds between code points < U+0250
count, a pair whose other-case form lies outside the range keeps its own identity.  Mappings
without a way back (dotless i, long s) are not case pairs."""
N=0x250
par=list(range(N))
def find(x):
    while par[x]!=x: x=par[x]
    return x
for c in range(N):
    for f in (chr(c).lower(), chr(c).upper(), chr(c).title()):
        if len(f)==1 and ord(f)<N and ord(f)!=c and chr(c).isalpha() and chr(c) in (chr(ord(f)).lower(), chr(ord(f)).upper(), chr(ord(f)).title()):
            a,b=find(c),find(ord(f))
            if a!=b: par[max(a,b)]=min(a,b)
print("/* Generated by tools/mkcase.py from the Unicode database: representative of each letter's case class. */")
print("static const unsigned short CASE_CLASS[0x250] = {")
for i in range(0,N,16): print("\t"+", ".join("0x%03x"%find(c) for c in range(i,i+16))+",")
print("};")
