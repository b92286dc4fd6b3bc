import json, glob, sys
for f in sorted(glob.glob(f'/verif/evidence/replay/{sys.argv[1]}*')):
    r = json.load(open(f)); e = r['replay'].get('event') or r['replay']
    print(r['what'])
    for k, v in e.items():
        s = json.dumps(v)
        print('   ', k, s[:int(sys.argv[2]) if len(sys.argv) > 2 else 300])
