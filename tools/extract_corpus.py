#!/usr/bin/env python3
"""Extracts Ferlium snippets from the repository's tests, book and .fer files into a raw corpus.
Run by hand; the result is committed (corpus/raw.txt), so checks never depend on test files."""
import re, glob, sys, ast
out = []
def add(s):
    s = s.strip('\n')
    if 2 <= len(s) <= 6000: out.append(s)
lit = re.compile(r'r(#+)"(.*?)"\1|"((?:[^"\\]|\\.)*)"', re.S)
def unesc(s):
    s = re.sub(r'\\\n\s*', '', s)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|.)', lambda m: {'n':'\n','t':'\t','r':'\r','0':'\0'}.get(m.group(1)) or (chr(int(m.group(1)[2:-1],16)) if m.group(1)[0]=='u' and len(m.group(1))>1 else m.group(1)), s)
fs = glob.glob('/repo/tests/**/*.rs', recursive=True) + glob.glob('/repo/src/**/*.rs', recursive=True) + glob.glob('/repo/benches/*.rs') + glob.glob('/repo/examples/*.rs')
for f in sorted(fs):
    t = open(f).read()
    if '/src/' in f:
        i = t.find('#[cfg(test)]')
        if i < 0: continue
        t = t[i:]
    # drop comments lines
    t = re.sub(r'^\s*//.*$', '', t, flags=re.M)
    for m in lit.finditer(t):
        s = m.group(2) if m.group(2) is not None else unesc(m.group(3) or '')
        add(s)
for f in sorted(glob.glob('/repo/docs/book/en/src/*.md')+glob.glob('/repo/doc/*.md')+glob.glob('/repo/*.md')):
    t = open(f).read()
    for m in re.finditer(r'```ferlium[^\n]*\n(.*?)```', t, re.S):
        add(re.sub(r'^# ?', '', m.group(1), flags=re.M))
for f in sorted(glob.glob('/repo/**/*.fer', recursive=True)):
    if '/target/' in f: continue
    add(open(f).read())
for f in sorted(glob.glob('/repo/fuzz/corpus/*/*')):
    try: add(open(f).read())
    except Exception: pass
seen=set(); res=[]
for s in out:
    import textwrap
    s=textwrap.dedent(s).strip()
    if s in seen or not s: continue
    seen.add(s); res.append(s)
open('/verif/corpus/raw.txt','w').write('\n%%%%\n'.join(res))
print(len(res), sum(map(len,res)))
