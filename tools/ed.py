#!/usr/bin/env python3
"""tools/ed.py [root]: apply edits from stdin, blocks FILE / <<< / old / === / new / >>> (FILE may be left out to stay in the same file); keeps CRLF line ends"""
import sys,os
def edit(txt,root="/repo"):
    lines=txt.split("\n"); i=0; f=None
    while i<len(lines):
        if lines[i]=="<<<":
            j=lines.index("===",i); k=lines.index(">>>",j); old="\n".join(lines[i+1:j]); new="\n".join(lines[j+1:k])
            p=os.path.join(root,f); s=open(p,newline='').read()
            if "\r\n" in s and old.replace("\n","\r\n") in s: old=old.replace("\n","\r\n"); new=new.replace("\n","\r\n")
            if s.count(old)!=1: sys.exit("%s: %d matches of\n%s"%(f,s.count(old),old))
            open(p,"w",newline='').write(s.replace(old,new)); i=k+1
        else:
            if lines[i].strip(): f=lines[i].strip()
            i+=1
if __name__=="__main__": edit(sys.stdin.read(),*(sys.argv[1:2]))
