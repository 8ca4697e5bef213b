"""ed.py FILE  < python-ish replacement script: list of (old,new) pairs on stdin as python literal; keeps CRLF."""
import ast
import sys
p = sys.argv[1]
b = open(p, encoding="utf-8", newline="").read()
crlf = "\r\n" in b
s = b.replace("\r\n", "\n")
for old, new in ast.literal_eval(sys.stdin.read()):
    assert s.count(old) == 1, (s.count(old), old)
    s = s.replace(old, new)
open(p, "w", encoding="utf-8", newline="").write(s.replace("\n", "\r\n") if crlf else s)
