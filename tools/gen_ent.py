"""Random histories of entities, handles, interned strings and queue updates."""
from vt import Ep
WORDS = ["", "a", "b", "ab", "ba", "abc", "a.b", ".a", "a.", "a..b", "A", "aa", "a,b.c", "Obj.tok.x", "\xff\x80", "z" * 30]
def enc(w):
    return "".join("%d:" % ord(c) for c in w) or "-"

def random_eps(r, n):
    eps = []
    for _ in range(n):
        L, kind = [], r.choice(("ent", "id", "lab", "q", "q"))
        es, hs, ls = ["e%d" % i for i in range(8)], ["h%d" % i for i in range(12)], ["l%d" % i for i in range(8)]
        size, item, span = r.choice((1, 2, 3, 10)), 0, r.choice((2, 6, 40, 1000))
        for _ in range(r.choice((15, 40, 90))):
            x = r.random()
            if kind == "ent":
                L.append("%s %s" % (r.choice(("new", "new", "inc", "inc", "dec", "dec", "del", "purge" if r.random() < .3 else "del")), r.choice(es)))
            elif kind == "id":
                if x < .3: L.append("idnew %s %d" % (r.choice(hs), r.random() < .5))
                elif x < .6: L.append("idcopy %s %s" % (r.choice(hs), r.choice(hs)))
                else: L.append("%s %s" % (r.choice(("idrel", "idrem", "idwrap", "idcast")), r.choice(hs)))
            elif kind == "lab":
                if x < .45:
                    w = r.choice(WORDS) if r.random() < .6 else "".join(chr(r.choice((97, 97, 98, 46, 44, 200, 255))) for _ in range(r.randint(0, 5)))
                    L.append("lab %s %s %d" % (r.choice(ls), enc(w), r.random() < .5))
                elif x < .8: L.append("labcmp %s %s" % (r.choice(ls), r.choice(ls)))
                else: L.append("labsplit %s %s" % (r.choice(ls), enc(r.choice((".", ",", ".,", "a", "ab")))))
            elif x < (.85 if len(L) < 25 else .5): item += 1; L.append("ins %d %d" % (item, r.randint(-span, span)))
            elif x < .985: L.append("ext")
            else: L.append("reset")
        if kind == "q": L += ["ext"] * r.randint(0, 50)
        eps.append(Ep("ent %d" % size, L))
    return eps
