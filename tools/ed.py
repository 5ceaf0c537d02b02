"""ed.py FILE <<< python literal list of (old,new)"""
import sys,ast
def edit(path, pairs):
    b=open(path,'rb').read()
    crlf=b'\r\n' in b
    for o,n in pairs:
        o=o.encode();n=n.encode()
        if crlf:
            o=o.replace(b'\n',b'\r\n');n=n.replace(b'\n',b'\r\n')
        assert b.count(o)==1,(path,b.count(o),o)
        b=b.replace(o,n)
    open(path,'wb').write(b)
