import sys; sys.path.insert(0,'/verif')
from cppvc import runner
mod=runner.load_module(sys.argv[1]); tu=runner.extract(mod)
for m,f in tu.functions.items():
    if f.get('l','').startswith('/repo'):
        print(f['q'], [tu.types[i]['s'][:50] for i in f['pt']], f.get('virtual'), 'body' in f, f['l'].split('/')[-1])
