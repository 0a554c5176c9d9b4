"""Write lib/data/helm.json and lib/data/misc.json: what the bundled catalogs say, read by byte columns (run once on the original tree)."""
import json, os, re, sys
src = os.path.join(sys.argv[1] if len(sys.argv) > 1 else '/repo', 'aipy', '_src')
pos, meas, ncomp = {}, {}, {}
for L in open(src + '/helm_pos.txt'):
    if L[0] == 'J':
        L = L.rstrip('\n').ljust(90)
        n = L[0:9]
        h, m, s = L[35:37], L[38:40], L[41:45]
        sg, d, dm, ds = L[46], L[47:49], L[50:52], L[53:57]
        ra = (int(h) + int(m) / 60 + float(s) / 3600) * 15
        dec = (int(d) + int(dm) / 60 + float(ds) / 3600) * (-1 if sg == '-' else 1)
        pos[n] = (ra, dec)
        ncomp.setdefault(n, int(L[33]))
        meas.setdefault(n, []).append((float(L[58:64]) / 1e3, float(L[65:73]), float(L[74:81])))
fit = {}
for L in open(src + '/helm_fit.txt'):
    if L[0] == 'J':
        L = L.rstrip('\n').ljust(90)
        f = [L[a - 1:b].strip() for a, b in ((14, 20), (22, 26), (35, 40), (42, 47), (49, 54), (56, 62), (64, 70))]
        fit[L[:9]] = [float(x) if x else None for x in f]
assert set(fit) == set(pos)
json.dump({n: dict(pos=pos[n], ncomp=ncomp[n], meas=meas[n], fit=fit[n]) for n in sorted(pos)}, open('/verif/lib/data/helm.json', 'w'))
