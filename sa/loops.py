"""Loop analysis: unrolling of concrete loops, closed forms of counted loops, header symbols otherwise."""
from .interp import *
from .interp import _assume
from .terms import _close, _replace_bv


TRACE = False


class Phi:
    """a leaf of the store changed by the loop"""
    def __init__(self, key, entry):
        self.key, self.entry = key, entry
        self.sym = None          # header value
        self.regs = []           # mat: regions (r0,c0,nr,nc) carried by phi symbols
        self.whole = False
        self.base = False
        self.closed = None       # closed header value as function of k
        self.names = ()
        self.exit = None


def leaf_name(key):
    root, path = key
    return root + "".join("." + p[1] if p[0] == "f" else "[]" for p in path)


def get_path(v, path, ip):
    for s in path:
        v = ip.proj(v, s)
    return v


def diff(root, path, h, b, out):
    if h is b:
        return
    if h.op == "rec" and b.op == "rec" and h.args[:2] == b.args[:2]:
        for n, x, y in zip(h.args[1], h.args[2:], b.args[2:]):
            diff(root, path + (("f", n),), x, y, out)
        return
    out.append(((root, path), h, b))


def reg_of(o):
    return o[:4]


def has_any(n, syms):
    return contains(n, lambda x: x in syms)


def run_loop(ip, s, cond, body, inc, post):
    fr = ip.fr
    lid = "/".join([c[0] for c in ip.ctx[-1:]] + ["%s@%s" % (fr.name, ip.site(s))])
    mpc = len(ip.st.pc)
    # ---------------------------------------------------------------- concrete unrolling
    limit = ip.opts.get("unroll", 8)
    s0 = ip.st.copy()
    ev0, lp0, seq0, ob0 = len(ip.events), len(ip.loops), ip.seq, len(ip.obl)
    if True:
        fr.breaks.append([])
        ok = False
        fr_ret = len(fr.returns)
        try:
            for it in range(limit + 1):
                c = cond() if not post or it else TRUE
                if c is not TRUE:
                    c = ip.simp(c)
                    if it == 0 and c is TRUE:
                        break
                if c is FALSE:
                    ok = True
                    break
                if c is not TRUE or it == limit:
                    break
                fr.conts.append([])
                sb = ip.st
                try:
                    body()
                except Dead:
                    ip.st = None
                cs = fr.conts.pop()
                ip.st = ip.join_states(cs + ([ip.st] if ip.st is not None else []), mpc)
                if ip.st is None:
                    ok = True
                    break
                inc()
        except Dead:
            ip.st = None
            ok = True
        bs = [b for b, _ in fr.breaks.pop()]
        if ok:
            ip.st = ip.join_states(bs + ([ip.st] if ip.st is not None else []), mpc)
            if ip.st is None:
                raise Dead()
            return
        del fr.returns[fr_ret:]
        del ip.events[ev0:]
        del ip.loops[lp0:]
        del ip.obl[ob0:]
        ip.seq = seq0
        ip.st = s0.copy()
    # ---------------------------------------------------------------- symbolic
    k = iv("k@" + lid)
    drop_bounds(k)
    phis = {}
    ip.prep_loop(lid) if hasattr(ip, "prep_loop") else None

    def header():
        st = s0.copy()
        ip.st = st
        for key, ph in phis.items():
            v = ph.closed if ph.closed is not None else ph.sym
            root, path = key
            st.mem[root] = ip.embed(st.mem[root], path, v) if path else v
        return st

    def one(dry):
        """one generic iteration; returns (cond, back state, break states, header mem, in-body pc)"""
        st = header()
        hmem = dict(st.mem)
        fr.breaks.append([])
        fr.conts.append([])
        nret = len(fr.returns)
        if dry:
            ip.dry += 1
        sctx = ip.ctx
        ip.ctx = ip.ctx + ((lid, k, info.get("n")),)
        c = TRUE
        back = None
        try:
            if not post:
                c = ip.simp(cond())
                cpc = ("br", c)
                if not (info.get("counted") and not info.get("extra")):
                    ip.st = St(ip.st.mem, ip.st.pc + (cpc,))
                else:
                    ip.st = St(ip.st.mem, ip.st.pc + (("as", c),))
            try:
                body()
            except Dead:
                ip.st = None
            cs = fr.conts[-1]
            ip.st = ip.join_states(list(cs) + ([ip.st] if ip.st is not None else []), mpc)
            if ip.st is not None:
                inc()
                if post:
                    c = ip.simp(cond())
                back = ip.st
        except Dead:
            back = None
        finally:
            ip.ctx = sctx
            if dry:
                ip.dry -= 1
            brs = fr.breaks.pop()
            fr.conts.pop()
            rets = fr.returns[nret:]
            if dry:
                del fr.returns[nret:]
        return c, back, [b for b, _ in brs], hmem, rets

    info = {}
    c0 = None
    if not post:
        ip.st = s0.copy()
        ip.dry += 1
        try:
            c0 = ip.simp(cond())
        finally:
            ip.dry -= 1
    for rnd in range(40):
        if TRACE and rnd > 1: print("   c", brief(c, 300), back is None)
        if TRACE:
            print("round", lid, rnd, brief(c0,200) if c0 is not None else None, {leaf_name(kk): (ph.whole, ph.base, len(ph.regs), ph.closed is not None) for kk, ph in phis.items()})
        c, back, brs, hmem, rets = one(True)
        if TRACE: print("   after", rnd, "c=", brief(c, 300), "back", back is None, len(brs), len(rets))
        new = False
        if back is not None:
            for root, h in hmem.items():
                b = back.mem.get(root)
                if b is None or b is h:
                    continue
                out = []
                diff(root, (), h, b, out)
                for key, hv, bv_ in out:
                    ph = find_phi(phis, key)
                    if ph is None:
                        # an enclosing leaf may already be a phi
                        phis[key] = ph = Phi(key, get_path(s0.mem[root], key[1], ip))
                        # drop phis below it
                        for o in list(phis):
                            if o is not key and o != key and o[0] == key[0] and o[1][:len(key[1])] == key[1]:
                                del phis[o]
                        new = True
                    if ph.closed is None and grow_phi(ip, lid, ph, hv, bv_, k):
                        new = True
        if new:
            continue
        if back is None:
            break
        # induction variables
        prog = False
        syms = unresolved(phis)
        for ph in phis.values():
            if ph.closed is not None or not (ph.sym.sort == "i" or ph.sym.op == "it" or ph.entry.op == "it"):
                continue
            b = get_path(back.mem[ph.key[0]], ph.key[1], ip)
            if ph.entry.op == "it":
                continue
            if not is_scalar(b):
                continue
            d = sub(b, ph.sym)
            if is_num(d):
                ph.closed = add(ph.entry, scale(k, d.args[0]))
                prog = True
        if prog:
            continue
        # trip count
        if "n" not in info and not post:
            n, extra = trip_count(ip, c, k)
            if n is not None:
                cz = c0 if c0 is not None else TRUE
                facts_n = ip.facts(s0.pc)
                if not ge0(n) and not implied_ge0(n, facts_n):
                    n = max_(n, ZERO)
                info.update(n=n, counted=True, extra=extra is not TRUE, k=k)
                set_bounds(k, 0, n)
                continue
        pure = info.get("counted") and not info.get("extra") and not brs and not rets
        if pure and solve(ip, lid, phis, back, k, info, s0):
            continue
        break
    # ---------------------------------------------------------------- final, recorded iteration
    counted = info.get("counted") and not info.get("extra")
    c, back, brs, hmem, rets = one(False)
    n = info.get("n")
    pure = counted and not brs and not rets and back is not None and all(ph.exit is not None for ph in phis.values())
    li = LoopInfo(lid=lid, loc=ip.loc(s), fn=fr.fn["q"], k=k, n=n, counted=bool(counted), pure=bool(pure), cond=c, c0=c0,
                  phis={leaf_name(kk): ph for kk, ph in phis.items()}, back=back, hmem=hmem, pc=s0.pc, nbreaks=len(brs), nrets=len(rets),
                  ctx=ip.ctx, entry=s0.mem, post=post, rets=list(rets), brs=list(brs))
    if not ip.dry:
        ip.loops.append(li)
    if pure:
        st = s0.copy()
        for key, ph in phis.items():
            root, path = key
            ip.st = st
            st.mem[root] = ip.embed(st.mem[root], path, ph.exit) if path else ph.exit
        ip.st = st
        st.pc = st.pc + passed(phis, back, s0, c, k, n)
        # globals first seen inside the body stay initialised
        for root, v in back.mem.items():
            if root not in st.mem:
                st.mem[root] = v
        for key, ph in phis.items():
            if ph.exit.op == "mat":
                root, path = key
                nm = leaf_name(key)
                st.mem[root] = ip.embed(st.mem[root], path, ip.tidy(nm, ph.exit)) if path else ip.tidy(nm, ph.exit)
        return
    # general loop: header state with the loop condition false, joined with the breaks
    outs = list(brs)
    st = header()
    if post:
        if back is not None:
            outs.append(St(back.mem, back.pc + ((("br", not_(c)),) if c is not TRUE else ())) if c is not TRUE else back)
    elif c is not TRUE or counted:
        if counted:
            mp = {k: n}
            mem = {r: subst(v, mp) if k in v.ivs else v for r, v in st.mem.items()}
            kept = passed(phis, back, s0, c, k, n) if back is not None else ()
            if rets or brs:
                done = bsym(mk("loopdone", lid, sort="i"))
                outs.append(St(mem, s0.pc + (("br", done),) + kept))
            else:
                outs.append(St(mem, s0.pc + kept))
        else:
            ip.st = st
            outs.append(St(st.mem, st.pc + (("br", not_(c)),)))
    if back is not None:
        for o in outs:
            for root, v in back.mem.items():
                if root not in o.mem:
                    o.mem[root] = v
    ip.st = ip.join_states(outs, len(s0.pc)) if outs else None
    if ip.st is None:
        raise Dead()
    return (outs, len(s0.pc)) if len(outs) > 1 else None


def passed(phis, back, s0, c, k, n):
    """assertions passed by every completed iteration"""
    syms = unresolved(phis)
    out = []
    for kind, cc in back.pc[len(s0.pc):]:
        if kind == "as" and cc is not c and not has_any(cc, syms) and not cc.opq:
            a = mk_forall(k, n, cc)
            if a is not TRUE:
                out.append(("as", a))
    return tuple(out)


def find_phi(phis, key):
    ph = phis.get(key)
    if ph is not None:
        return ph
    for o, ph in phis.items():
        if o[0] == key[0] and key[1][:len(o[1])] == o[1]:
            return ph
    return None


def implied_ge0(n, facts):
    l = geq(n, ZERO)
    if l is TRUE:
        return True
    return _assume(l, facts) is TRUE


def grow_phi(ip, lid, ph, hv, bv_, k):
    """make the header value of a changed leaf symbolic; True if something changed"""
    name = lid + "|" + leaf_name(ph.key)
    e = ph.entry
    if e.op == "mat" and bv_.op == "mat" and not ph.whole:
        same_dims = e.args[0] is bv_.args[0] and e.args[1] is bv_.args[1]
        if not same_dims:
            ph.whole = True
            node = mk("phi", name, sort="o")
            ph.sym = sym_mat(node, mk("rows", node), mk("cols", node) if e.args[1] is not ONE else ONE)
            ph.names = (node,)
            return True
        bad = False
        changed = False
        for o in bv_.args[3]:
            r = reg_of(o)
            if any(x.op == "phi" or x is k for c in r for x in atoms_of(c, lambda y: y.op == "phi" or y is k)):
                bad = True
                break
            hr = m_read(hv, *r)
            if hr.args[3] or hr.args[2] is not o[4]:
                if not any(same_region(r, x) for x in ph.regs):
                    ph.regs.append(r)
                    changed = True
        if bad or bv_.args[2] is not hv.args[2] or any(region_rel(a, b) != "dis" for i, a in enumerate(ph.regs) for b in ph.regs[i + 1:]):
            if ph.base:
                return False
            ph.base = True
            ph.regs = []
            node = mk("phi", name, sort="o")
            ph.sym = sym_mat(node, e.args[0], e.args[1])
            ph.names = (node,)
            return True
        if ph.base:
            return False
        if changed or ph.sym is None:
            M = e
            names = []
            for j, r in enumerate(ph.regs):
                node = mk("phi", name, j, sort="o")
                names.append(node)
                M = m_write(M, *r, sym_mat(node, r[2], r[3]))
            ph.sym = M
            ph.names = tuple(names)
            return changed
        return False
    if ph.sym is not None:
        return False
    node = mk("phi", name, sort=e.sort if e.sort in ("i", "r", "e") else ("i" if e.sort == "b" else "o"))
    ph.names = (node,)
    if e.sort == "i" and bv_.sort == "r":
        node = mk("phi", name, "r", sort="r")
        ph.names = (node,)
    if e.sort == "b":
        ph.sym = bsym(node)
    elif e.sort in ("i", "r"):
        ph.sym = node
    elif e.sort == "e":
        ph.sym = node
        if node not in ENUM_OF:
            q = enum_q(e) or enum_q(bv_)
            if q:
                ENUM_OF[node] = q
    elif e.op == "list" or bv_.op == "list":
        tk = e.args[0] if e.op == "list" else bv_.args[0]
        ph.sym = sym_list(tk, node)
    elif e.op == "it":
        ph.sym = mk("it", e.args[0], mk("phi", name, "idx", sort="i"), sort="o")
        ph.names = (ph.sym.args[1],)
    elif e.op == "mat" or bv_.op == "mat":
        ph.whole = True
        x = e if e.op == "mat" else bv_
        ph.sym = sym_mat(node, mk("rows", node), mk("cols", node) if x.args[1] is not ONE else ONE)
    elif e.op == "rec":
        ph.sym = node
    else:
        ph.sym = node
    return True


def enum_q(n):
    if n.op == "enum":
        return n.args[0]
    if n in ENUM_OF:
        return ENUM_OF[n]
    if n.op == "gite":
        return enum_q(n.args[1]) or enum_q(n.args[2])
    return None


def unresolved(phis):
    s = set()
    for ph in phis.values():
        if ph.closed is None:
            s |= set(ph.names)
    return s


def trip_count(ip, c, k):
    """cond as function of the counter k: returns (n, remaining condition)"""
    extra = TRUE
    lits = list(conjuncts(c))
    best = None
    for l in lits:
        if l.op != "lit" or l.args[1] != "n" or k not in l.ivs:
            continue
        q, _, S = l.args
        co = [cc for m, cc in terms(q).items() if m == ((k, 1),)]
        if not co or abs(co[0]) != 1:
            continue
        rest = from_terms({m: cc for m, cc in terms(q).items() if m != ((k, 1),)})
        if k in rest.ivs or contains(rest, lambda x: x.op == "phi"):
            continue
        s = co[0]
        if len(S) == 1:
            lo, lc, hi, hc = S[0]
            if s == 1 and lo is None and hi is not None:        # k + rest < hi
                best = (l, add(sub(num(hi), rest), ONE if hc else ZERO))
                break
            if s == -1 and hi is None and lo is not None:       # -k + rest > lo
                best = (l, add(sub(rest, num(lo)), ONE if lc else ZERO))
                break
        if len(S) == 2 and S[0][0] is None and S[1][2] is None and S[0][2] == S[1][0]:   # != v
            v = S[0][2]
            best = (l, scale(sub(num(v), rest), s))
            break
    if best is None:
        return None, TRUE
    extra = and_(*[x for x in lits if x is not best[0]])
    return best[1], extra


def psum(k, n, e):
    j = iv(fresh("j"))
    return mk_sum([(j, n)], subst(e, {k: j}))


def solve(ip, lid, phis, back, k, info, s0):
    """try to find closed forms; True if a header value got closed (another round is needed)"""
    n = info["n"]
    syms = unresolved(phis)
    progressed = False
    for ph in list(phis.values()):
        if ph.exit is not None:
            continue
        b = get_path(back.mem[ph.key[0]], ph.key[1], ip)
        others = syms - set(ph.names)
        if ph.closed is not None:      # induction variable
            ph.exit = subst(ph.closed, {k: n}) if ph.closed.ivs else ph.closed
            continue
        if b.opq and not (b.op in ("mat", "list")):
            continue
        own = set(ph.names)
        r = None
        if ph.sym.op == "mat":
            r = solve_mat(ip, ph, b, k, n, syms, own)
        elif ph.sym.sort == "b":
            r = solve_bool(ph, b, k, n, syms)
        elif ph.sym.op == "list" and b.op == "list":
            r = solve_list(ip, ph, b, k, n, syms)
        elif is_scalar(ph.sym) and is_scalar(b):
            r = solve_scalar(ph, b, k, n, syms)
        if r is None and not has_any(b, syms):
            # value of the last iteration; the header value must not be used by anybody else
            last = subst(b, {k: sub(n, ONE)})
            r = (merge(cmp(n, ">", ZERO), last, ph.entry), None)
            if is_scalar(b) or b.sort == "b" or b.op == "mat":
                pass
        if r is None:
            continue
        ph.exit = r[0]
        if r[1] is not None:
            ph.closed = r[1]
            progressed = True
    return progressed


def solve_bool(ph, b, k, n, syms):
    p = ph.sym
    if b.opq:
        return None
    if b.op == "and" and p in b.args:
        rest = and_(*[x for x in b.args if x is not p])
        if not has_any(rest, syms):
            return (and_(ph.entry, mk_forall(k, n, rest)), None)
    if b.op == "or" and p in b.args:
        rest = or_(*[x for x in b.args if x is not p])
        if not has_any(rest, syms):
            return (or_(ph.entry, not_(mk_forall(k, n, not_(rest)))), None)
    return None


def solve_scalar(ph, b, k, n, syms):
    x = ph.sym
    if b is x:
        return (ph.entry, ph.entry)
    d = sub(b, x)
    if not has_any(d, syms):
        return (add(ph.entry, psum(k, n, d)), add(ph.entry, psum(k, k, d)))
    r = max_pattern(b, x, syms)
    if r is not None:
        sgn, c, e = r
        j = iv(fresh("j"))
        mp = {k: j}
        if sgn > 0:
            return (maxfold(ph.entry, j, n, subst(c, mp), subst(e, mp)), None)
        return (neg(maxfold(neg(ph.entry), j, n, subst(c, mp), neg(subst(e, mp)))), None)
    return None


def max_pattern(b, x, syms):
    """b == x + ind(c)*(max(x, e) - x)  or the min version; returns (sign, c, e)"""
    ms = [a for a in atoms_of(b, lambda y: y.op == "max") if contains(a, lambda y: y is x)]
    for M in ms:
        for sgn in (1, -1):
            me = [it for it in M.args[0] if contains(it, lambda y: y is x)]
            if len(me) != 1:
                continue
            kk = sub(me[0], scale(x, sgn))
            if kk is not ZERO:
                # scaled content
                co = [cc for m, cc in terms(me[0]).items() if m == ((x, 1),)]
                if len(terms(me[0])) != 1 or not co or co[0] * sgn <= 0:
                    continue
                f = 1 / abs(co[0])
            else:
                f = F1
            rest = [scale(it, f) for it in M.args[0] if it is not me[0]]
            if any(has_any(it, syms) for it in rest):
                continue
            e = scale(max_(*rest), sgn)
            # gate
            conds = set()
            for m, cc in terms(b).items():
                if any(a is M for a, _ in m):
                    conds.add(and_(*[a.args[0] for a, _ in m if a.op == "ind"]))
            if len(conds) == 2 and TRUE in conds:       # M - [C]*M
                conds.remove(TRUE)
                conds = {not_(conds.pop())}
            if len(conds) != 1:
                continue
            c = conds.pop()
            if has_any(c, syms):
                continue
            want = add(x, mul_ind(c, sub(scale(scale(M, f), sgn), x)))
            if want is b or equal(want, b)[0] is True:
                return sgn, c, e
    return None


def solve_list(ip, ph, b, k, n, syms):
    p = ph.sym
    if b.args[0] != p.args[0]:
        return None
    segs = b.args[1:]
    np_ = len(p.args) - 1
    if segs[:np_] != p.args[1:]:
        return None
    tail = segs[np_:]
    if any(any(has_any(z, syms) for z in t if isinstance(z, Node)) for t in tail):
        return None
    out = []
    if len(tail) == 1 and tail[0][0] in ("one", "if"):
        t = tail[0]
        g = gen(k, n, t[1] if t[0] == "one" else t[2], TRUE if t[0] == "one" else t[1])
        ex = mk("list", p.args[0], *(ph.entry.args[1:] + (g,)), sort="o") if ph.entry.op == "list" else opaque("lcat", ph.entry)
        gk = gen(iv("k'"), k, subst(t[1] if t[0] == "one" else t[2], {k: iv("k'")}), TRUE if t[0] == "one" else subst(t[1], {k: iv("k'")}))
        cl = mk("list", p.args[0], *(ph.entry.args[1:] + (gk,)), sort="o") if ph.entry.op == "list" else None
        return (ex, cl)
    # several pieces per iteration: a generated sub-sequence
    g = ("gens", ) + _gens(k, n, tail)
    if ph.entry.op == "list":
        return (mk("list", p.args[0], *(ph.entry.args[1:] + (g,)), sort="o"), None)
    return None


def _gens(k, n, tail):
    mb = [n.mbv]

    def walk(t):
        for z in t:
            if isinstance(z, Node):
                mb.append(z.mbv)
            elif isinstance(z, tuple):
                walk(z)
            elif isinstance(z, int):
                mb.append(z if t and t[0] in ("gen", "gens") else 0)
    walk(tail)
    lv = 1 + max(mb)
    b = bv(lv)

    def go(t):
        return tuple(subst(z, {k: b}) if isinstance(z, Node) else go(z) if isinstance(z, tuple) else z for z in t)
    return (lv, n, go(tail))


def solve_mat(ip, ph, b, k, n, syms, own):
    """per region: scatter-add, element map, fold"""
    if b.op != "mat" or ph.whole:
        return None
    e = ph.entry
    if ph.base:
        parts = [(None, ph.names[0], m_body(b), m_body(e), ZERO, ZERO)]
        if b.args[3] and False:
            return None
    else:
        parts = []
        for nm, r in zip(ph.names, ph.regs):
            rb = m_read(b, *r)
            re_ = m_read(e, *r)
            parts.append((r, nm, m_body(rb), m_body(re_), r[0], r[1]))
    exits, heads = [], []
    for r, nm, body, ent, r0, c0 in parts:
        cols1 = (r[3] is ONE) if r is not None else (e.args[1] is ONE)
        el = elem(nm, ROW, ZERO if cols1 else COL)
        x = solve_region(ip, nm, el, body, ent, k, n, syms)
        if x is None:
            return None
        exits.append(x[0])
        heads.append(x[1])

    def build(bodies):
        bodies = [within(x, e.args[0] if r is None else r[2], e.args[1] if r is None else r[3]) for x, (r, *_) in zip(bodies, parts)]
        if ph.base:
            return mat(e.args[0], e.args[1], bodies[0])
        M = e
        for (r, nm, body, ent, r0, c0), bb in zip(parts, bodies):
            M = m_write(M, *r, mat(r[2], r[3], bb))
        return M
    return (build(exits), build(heads) if all(h is not None for h in heads) else None)


def within(x, nr, nc):
    """a region body, under the knowledge that ROW < nr and COL < nc"""
    f = facts_of(and_(lt(ROW, nr), lt(COL, nc)))
    return _assume(x, {k: v for k, v in f.items() if v.op == "lit"}) if f else x


def canon_el(n, nm):
    return atoms_of(n, lambda y: y.op == "el" and y.args[0] is nm)


def solve_region(ip, nm, el, body, ent, k, n, syms):
    d = sub(body, el)
    if d is ZERO:
        return (ent, ent)
    if d.opq:
        return None
    if not has_any(d, syms):
        # additive.  block writes keep their shape, everything else becomes a sum
        return (add(ent, psum(k, n, d)), add(ent, psum(k, k, d)))
    if has_any(d, syms - {nm}):
        return None
    # element map: every monomial carries an equation ROW == k + c (or COL == k + c)
    x = emap(nm, el, d, ent, k, n)
    if x is not None:
        return x
    x = block_rows(nm, el, body, ent, k, n)
    if x is not None:
        return x
    # in-place fold: monomials guarded by ROW == w(k), w not invertible
    els = canon_el(d, nm)
    conds = None
    for m, c in terms(d).items():
        cs = set()
        for a, _ in m:
            if a.op == "ind":
                cs |= set(conjuncts(a.args[0]))
        conds = cs if conds is None else conds & cs
    if conds:
        eqs = [l for l in conds if ROW in l.ivs]
        if eqs:
            g = and_(*eqs)
            ok = True
            gl = set(conjuncts(g))
            for o in canon_el(body, nm):
                for ix, axis in ((o.args[1], ROW), (o.args[2], COL)):
                    if ix is not axis and eqn(axis, ix) not in gl and not (axis is COL and ix is ZERO):
                        ok = False
            if ok:
                u = rewrite(body, lambda y: OLD if y.op == "el" and y.args[0] is nm else None)
                u = assume_lits(u, facts_of(g))
                lv, (dd, gg, uu) = _close([k], [n, g, u])
                return (mk("fold", dd, gg, uu, lv, ent, sort="r"), None)
    return None


def emap(nm, el, d, ent, k, n):
    out_exit, out_head = ent, ent
    for m, c in terms(d).items():
        mono = from_terms({m: c})
        inds = [a for a, _ in m if a.op == "ind"]
        lits = [l for a in inds for l in conjuncts(a.args[0])]
        sol = None
        for l in lits:
            if l.op != "lit" or l.args[1] != "n" or k not in l.ivs:
                continue
            q, _, S = l.args
            if len(S) != 1 or S[0][0] is None or S[0][0] != S[0][2]:
                continue
            co = [cc for mm, cc in terms(q).items() if mm == ((k, 1),)]
            if not co or abs(co[0]) != 1:
                continue
            rest = from_terms({mm: cc for mm, cc in terms(q).items() if mm != ((k, 1),)})
            if k in rest.ivs or not (rest.ivs & {ROW, COL}):
                continue
            sol = scale(sub(num(S[0][0]), rest), 1 / co[0])
            break
        if sol is None:
            return None
        t = subst(mono, {k: sol})
        els = canon_el(t, nm)
        if any(x is not el for x in els):
            return None
        t = rewrite(t, lambda y: ent if y is el else None)
        inr = and_(geq(sol, ZERO), lt(sol, n))
        out_exit = add(out_exit, mul_ind(inr, t))
        inh = and_(geq(sol, ZERO), lt(sol, k))
        out_head = add(out_head, mul_ind(inh, t))
    return (simp_range(out_exit, nm), simp_range(out_head, nm))


def simp_range(x, nm):
    return x


def block_rows(nm, el, body, ent, k, n):
    """body == ite(off(k) <= ROW < off(k) + dim(k), val(k), old): consecutive blocks of rows"""
    d = sub(body, el)
    common = None
    for m, c in terms(d).items():
        cs = set()
        for a, _ in m:
            if a.op == "ind":
                cs |= set(conjuncts(a.args[0]))
        common = cs if common is None else common & cs
    if not common:
        return None
    g = and_(*[l for l in common if l.op == "lit" and ROW in l.ivs and k in l.ivs or (l.op == "lit" and ROW in l.ivs)])
    if g is TRUE:
        return None
    v = assume_lits(body, facts_of(g))
    mp = {el: OLD}
    v = rewrite(v, lambda y: OLD if y is el else None)
    if contains(v, lambda y: y.op == "el" and y.args[0] is nm):
        return None
    if ROW in v.ivs or True:
        lv, (dd, gg, vv) = _close([k], [n, g, v])
        return (mk("stack", dd, gg, vv, lv, ent, sort="r"), None)
