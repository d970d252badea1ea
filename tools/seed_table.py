import json,os
first={'c14-null-insert':'get_mut/insert of null members in histories','c15-clone-shares':'every value shown after every call','c23-complex':'generator overriding nothing but write_min; strings with escapes after plain runs','c23-dedent-order':'layout calls kept apart in the call log','c21-hint':'iterators whose size hint is off','c22-nan-empty':'NaN asked everything','c01-late-hex':'the same places late in long texts','c06-long-array':'Bulk','c14-u16-links':'Bulk to 100000 members','c19-long-short':'near pairs of long containers','c21-capacity':'capacity-sensitive conversions','c24-mut-hint':'size_hint of every iterator in Bulk','c26-fmt-scratch':'re-entrant formatting','c09-pad':'formatter options','c19-hash-eq':'near pairs whose keys hash alike','c15-reserve':'texts that just fill a buffer','c06-swar-bs':'odd characters at every offset (writing)','c01-swar-control':'odd characters at every offset (reading)','c26-hash-cache':'"rekey": one key buffer with changing contents','c15-clone-from':'clone_from'}
first.update(json.load(open('/verif/tools/first_missed.json')) if os.path.exists('/verif/tools/first_missed.json') else {})
out=['| bug | check | needs |','|---|---|---|']
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%i))
    n=m['needs'].replace('|','/').replace('\n',' ')
    out.append('| %s | %s | %s%s |'%(i,m['property'],n[:150],(' * '+first[i]) if i in first else ''))
d=open('/verif/DESIGN.md').read()
h='and led to the strengthening named.\n'
d=d[:d.index(h)+len(h)]+'\n'+'\n'.join(out)+'\n'
open('/verif/DESIGN.md','w').write(d)
