import re,os
mods={ # module: features
 "h_prop":["prop","bt"],"h_conflict":["conflict"],
}
d='/verif/harness/src'
extra={'h_prop':['conflict']}
feats=set()
lines=[];ents=[]
for fn in sorted(os.listdir(d)):
    if not fn.startswith('h_'): continue
    m=fn[:-3]
    fs=mods.get(m,[m[2:]])
    feats.update(fs)
    lines.append((m,fs))
# dependencies between modules
deps={}
for m,fs in lines:
    src=open(f'{d}/{m}.rs').read()
    for m2,_ in lines:
        if m2!=m and re.search(r'\b'+m2+r'\b::',src): deps.setdefault(m2,set()).add(m)
def allf(m,seen=()):
    fs=set(dict(lines)[m])
    for u in deps.get(m,()):
        if u not in seen: fs|=allf(u,seen+(m,))
    return fs
def cfg(fs):
    fs=sorted(fs)
    return f'feature = "{fs[0]}"' if len(fs)==1 else 'any('+', '.join(f'feature = "{f}"' for f in fs)+')'
s=open(f'{d}/main.rs').read()
head=s[:s.index('mod sx;\n')+8]
tail=s[s.index('#[cfg(not(feature = "native"))]\nfn main'):]
body='\n'+''.join(f'#[cfg({cfg(allf(m))})]\nmod {m};\n' for m,_ in lines)
body+='\ntype Entry = (&\'static str, extern "C" fn());\npub fn entries() -> Vec<Entry> {\n    #[allow(unused_mut)]\n    let mut v: Vec<Entry> = vec![];\n'
for m,fs in lines: body+=f'    #[cfg({cfg(fs)})]\n    v.extend_from_slice({m}::ENTRIES);\n'
body+='    v\n}\n\n'
open(f'{d}/main.rs','w').write(head+body+tail)
t=open('/verif/harness/Cargo.toml').read()
a=t.index('[features]'); b=t.index('# the configuration')
VARIANTS={ # cargo features of splr itself
 'std':'default',
 'fa':'default bi_clause_completion stochastic_local_search just_used assign_rate',
 'fb':'unsafe_access LRB_rewarding rephase no_IO',
 'fc':'unsafe_access LRB_rewarding rephase clause_elimination clause_vivification two_mode_reduction reason_side_rewarding',
 'fd':'unsafe_access LRB_rewarding rephase trail_saving BT_deepen dynamic_restart_threshold reward_annealing bi_clause_completion',
}
var=''.join(f'{k} = ['+', '.join(f'"splr/{x}"' for x in v.split())+']\n' for k,v in VARIANTS.items())
t=t[:a]+'[features]\nnative = []\n'+var+''.join(f'{f} = []\n' for f in sorted(feats))+'\n'+t[b:]
open('/verif/harness/Cargo.toml','w').write(t)
