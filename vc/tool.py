"""developer aid: verify one function (tool.py KEY [PROP])"""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract, registry, world
def prep(keys):
    def keep(d):
        b = world.base_name(d)
        return b is not None and any(registry.FUNCS[k][1] == b and registry.FUNCS[k][2] in d for k in keys)
    ll, dem = extract.prepare(extract.compile_raw(), keep)
    names = {}
    for mg, d in dem.items():
        b = world.base_name(d)
        for k in keys:
            if b is not None and registry.FUNCS[k][1] == b and registry.FUNCS[k][2] in d: names[k] = mg
    return ll, names
def main():
    key = sys.argv[1]; prop = sys.argv[2] if len(sys.argv) > 2 else None
    keys = registry.PROPS[prop].closure() if prop else sorted(set([key]) | {c for p in registry.PROPS.values() if key in p.funcs for c in p.closure()})
    ll, names = prep(keys)
    if os.environ.get("DUMP"): open(os.environ["DUMP"], "w").write(ll)
    m = world.Module(ll); w = registry.make_world(m, key, names)
    v = world.Verifier(m, names[key], registry.FUNCS[key][0](key), w); t = time.time()
    try: v.verify()
    except Exception as ex:
        import traceback; traceback.print_exc(); v.pool.kill()
    bad = [o for o in v.obls if o.status != 'proved']
    print("%s: %d obligations, %d bad, %.1f s, loops %d, %s" % (key, len(v.obls), len(bad), time.time() - t, v.nloops, v.prover.stats))
    for o in bad[:40]: print("  ", o.name, o.status, getattr(o, 'path', ())[-8:])
    if os.environ.get("OBLS"): print('\n'.join('  %s %s %s' % (o.name, o.status, o.backend) for o in v.obls))
    if os.environ.get("INV"):
        for k, l in v.inv_kept.items(): print(k, l)
    print(w.tab.T.checked if w.tab else '')
main()
