#!/usr/bin/env python3
"""Pretty-print a body from the fact file (debugging aid): show.py facts.json substring"""
import json,sys
def P(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%s'%(e[2] if len(e)>2 and e[2] else e[1])
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='d': s='(%s as %s)'%(s,e[2])
        else: s+=str(e)
    return s
def O(o):
    if o[0] in 'cm': return ('move ' if o[0]=='m' else '')+P(o[1])
    k=o[1]; return 'const %s'%(k.get('v') if k.get('v') is not None else k.get('fn') or k.get('item') or k.get('closure') or k.get('s'))
def R(r):
    out=[r[0]]
    for x in r[1:]:
        out.append(str(x))
    return ' '.join(out)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if sys.argv[2] in b['path']:
            print('==',b['id'],b['path'],b['kind'],'argc',b['argc'])
            for i,l in enumerate(b['locals']): print('  _%d: %s %s'%(i,l.get('name') or '',l['ty']['s'] if isinstance(l.get('ty'),dict) else l))
            for i,bl in enumerate(b['blocks']):
                print(' bb%d:'%i)
                for s in bl['s']:
                    print('   ',s[0], P(s[1]) if isinstance(s[1],list) else s[1], R(s[2]) if len(s)>2 and isinstance(s[2],list) else s[2:])
                print('   ->',json.dumps(bl['t']))
