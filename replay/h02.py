"""C02: iterations with scripted workers; the live set is compared with the definition after every one."""
from coord import *


def run(c):
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()
        for it in range(c['iters']):
            before = list(ns.params)
            n = c['n']
            thr0 = co.logLmin.value
            srt = sorted(p.logL for p in before)
            want = srt[n - 1]
            worst = sorted(before, key=lambda p: p.logL)[:n]
            nrep = len(co.replies)
            thr_seen = []
            old = co.reply

            def rep(i, m):
                thr_seen.append(co.logLmin.value)
                return old(i, m)
            co.reply = rep
            ns.consume_sample()
            co.reply = old
            after = list(ns.params)
            need(all(t == want for t in thr_seen), 'threshold while workers answer is %r, the n-th lowest likelihood is %r' % (thr_seen[:3], want))
            need(co.logLmin.value == want, 'threshold %r is not the n-th lowest likelihood %r' % (co.logLmin.value, want))
            need(it == 0 or want >= thr0, 'threshold went down')
            need(len(after) == c['N'], 'live set has %d points instead of %d' % (len(after), c['N']))
            a, b = set(ids(after)), set(ids(before))
            need(len(a) == len(after), 'a live point appears twice')
            gone, new = b - a, a - b
            need(len(gone) == n and len(new) == n, '%d points removed, %d added, expected %d' % (len(gone), len(new), n))
            need(sorted(p.logL for p in before if ident(p) in gone) == srt[:n], 'the removed points are not the %d lowest' % n)
            got = {ident(p): p for _, p in co.replies[nrep:]}
            for p in after:
                if ident(p) in new:
                    need(p.logL > want, 'new live point at %r, not above the threshold %r' % (p.logL, want))
                    need(ident(p) in got, 'new live point was not sent by a worker')
                need(p.logL == co.seen[p['x']], 'likelihood of a live point changed')
            need([p.logL for p in after] == sorted(p.logL for p in after), 'live set not ordered')
    finally:
        co.close()


CHECKS = {'iterations': (lambda r, t: cases(r, t), run)}
main(CHECKS)
