import re,sys
s=open(sys.argv[1]).read()
s=re.sub(r'/\*.*?\*/','',s,flags=re.S)
s=re.sub(r'\n\s*\n+','\n',s)
print(s)
