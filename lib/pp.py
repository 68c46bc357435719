import json,sys
def load(p): return json.load(open(p))
class PP:
    def __init__(s,d): s.d=d; s.T=d['types']
    def ty(s,i,depth=0):
        if not isinstance(i,int): return str(i)
        t=s.T[i]
        if depth>6: return '..'
        k=t[0]
        r=lambda x:s.ty(x,depth+1)
        if k=='adt': return t[1].split('::')[-1]+('<'+','.join(r(x) for x in t[2])+'>' if t[2] else '')
        if k=='ref': return '&'+('mut ' if t[1] else '')+r(t[2])
        if k=='slice': return '['+r(t[1])+']'
        if k=='array': return '['+r(t[1])+';'+str(t[2])+']'
        if k=='tuple': return '('+','.join(r(x) for x in t[1])+')'
        if k in('closure','coroutine'): return '{%s %s}'%(k,t[1])
        if k in('int','uint','float'): return t[1]
        if k=='param': return t[1]
        return str(t)
    def place(s,p):
        o='_%d'%p[0]
        for e in p[1]:
            if e[0]=='d': o='(*%s)'%o
            elif e[0]=='f': o+='.%d'%e[1]
            elif e[0]=='v': o+=' as %s'%e[2]
            elif e[0]=='i': o+='[_%d]'%e[1]
            else: o+=str(e)
        return o
    def op(s,o):
        if o[0] in('cp','mv'): return s.place(o[1])
        k=o[1]
        if 'fn' in k:
            f=k['fn']; 
            return 'fn %s%s%s'%(f.get('rname') or f['name'], '' if 'rid' in f else '?', '<%s>'%','.join(s.ty(a) if isinstance(a,int) else str(a) for a in (f.get('rargs') or f.get('args') or [])))
        return json.dumps({a:b for a,b in k.items() if a!='ty'})+':'+s.ty(k['ty'])
    def rv(s,r):
        k=r[0]
        if k=='use': return s.op(r[1])
        if k in('ref',): return '&%s %s'%(r[1],s.place(r[2]))
        if k=='bin': return '%s(%s,%s)'%(r[1],s.op(r[2]),s.op(r[3]))
        if k=='agg': return 'agg %s (%s)'%(json.dumps(r[1]),','.join(s.op(x) for x in r[2]))
        if k=='discr': return 'discr(%s)'%s.place(r[1])
        if k=='cast': return 'cast %s %s -> %s'%(r[1],s.op(r[2]),s.ty(r[3]))
        if k=='un': return '%s(%s)'%(r[1],s.op(r[2]))
        return json.dumps(r)
    def fn(s,f):
        print('=== fn',f['id'],f['name'],{k:v for k,v in f.items() if k not in('body','promoted','id','name')})
        s.body(f['body'])
        for i,p in enumerate(f.get('promoted') or []):
            print('--- promoted',i); s.body(p)
    def body(s,b):
        print('argc',b['argc'],'names',b.get('names'))
        print(' '.join('_%d:%s'%(i,s.ty(t)) for i,t in enumerate(b['locals'])))
        for i,bl in enumerate(b['blocks']):
            if bl is None: continue
            print(' bb%d:'%i)
            for st in bl[0]:
                if st[0]=='=': print('   ',s.place(st[1]),'=',s.rv(st[2]))
                elif st[0] in('dead','live'): pass
                else: print('   ',st)
            t=bl[1]
            if t[0]=='call': print('    CALL',s.place(t[3]),'=',s.op(t[1]),'(',', '.join(s.op(a) for a in t[2]),') ->',t[4])
            elif t[0]=='switch': print('    SWITCH',s.op(t[1]),t[2],t[3])
            elif t[0]=='drop': print('    DROP',s.place(t[1]),t[2])
            else: print('   ',json.dumps(t)[:200])
if __name__=='__main__':
    d=load(sys.argv[1]); pp=PP(d)
    for f in d['fns']+(d['ext'] if len(sys.argv)>3 else []):
        if sys.argv[2] in f['name'] or sys.argv[2]==f['id']: pp.fn(f)
