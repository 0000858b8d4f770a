import facts,sys
F=facts.load()
def show(fn):
    print(fn['p'],fn['u'],fn['kind'],'async' if fn['async'] else '',fn['file'],fn['line'])
    for i,l in enumerate(fn['locals']): print('  _%d: %s'%(i,' = '.join(l[::-1])))
    for i,(s,t,c) in enumerate(fn['blocks']):
        if c: continue
        print(' bb%d:'%i)
        for x in s: print('    ',x)
        print('    ->',t)
if __name__=='__main__':
    for f in F['fn'].values():
        if sys.argv[1] in f['p'] or sys.argv[1] in f['u']: show(f)
