"""addcheck.py ID Spec[:driver][,Spec2[:driver2]] -- register a check."""
import sys
p = __file__.replace('tools/addcheck.py', 'harness/registry.py')
i, parts = sys.argv[1:3]
ps = ', '.join('part(%s)' % ', '.join(repr(x) for x in q.split(':')) for q in parts.split(','))
s = open(p).read().rstrip(); assert s.endswith('}')
s = '\n'.join(l for l in s[:-1].rstrip().split('\n') if not l.startswith(" '%s':" % i))
open(p, 'w').write(s + "\n '%s': dict(parts=[%s]),\n}\n" % (i, ps))
