"""edit.py FILE: replace OLD by NEW read from stdin separated by lines '=====' ; keeps CRLF. Exactly one match unless count given."""
import sys
f = sys.argv[1]
raw = open(f, newline='').read(); crlf = '\r\n' in raw
s = raw.replace('\r\n', '\n')
old, new = sys.stdin.read().split('\n=====\n'); new = new.rstrip('\n') + ('' if not new.endswith('\n') else '')
n = s.count(old)
assert n == 1, "matches: %d" % n
s = s.replace(old, new)
if crlf: s = s.replace('\n', '\r\n')
open(f, 'w', newline='').write(s)
