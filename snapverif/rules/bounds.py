"""C42: the bounds searched for an abbreviated key."""
from .keys import *
from .keys import Pieces, First, KEYISH, sizes, number
from .prov import roots, call_args, okval, outermost, name_of

THROUGH = re.compile(r"::(into_vec|clone|to_bitvec|into_boxed_slice|as_slice|as_raw_slice|to_vec|into_inner|deref|as_bitslice|into_iter|iter|into|from|to_owned|"
                     r"as_bitslice|as_mut_bitslice|deref_mut|into_boxed_bitslice|from_bitslice|as_ref|into_bitvec|into_boxed_bitslice)$")
ADD = re.compile(r"^(AddAssign::add_assign|Add::add)$")
SUCC = re.compile(r"::(all|not_all|any|not_any|some|count_ones|count_zeros|is_empty)$")
BYTES = re.compile(r"^std::vec::Vec::(push|extend_from_slice|append|insert)$|^Extend::extend$|^(std::io::)?Write::write_all$")
# what makes other bits of them
ALTER = re.compile(r"::(add_assign|add|sub_assign|sub|not|neg|reverse|truncate|pop|remove|swap_remove|clear|set|set_all|resize|push|split_off|drain|"
                   r"shl_assign|shr_assign|shl|shr|rotate_left|rotate_right|bitand_assign|bitor_assign|bitxor_assign|bitand|bitor|bitxor|fill|retain|dedup|"
                   r"insert|append|extend_from_slice|extend|set_elements|force_align)$")


def C42(an, ck):
    n = Seen()
    fn = an.tm("Keyish", "FromStr", "from_str")
    dec = an.fn("snapcd::base32::from_base32")
    kv, rv = an.variant(KEYISH, "Key"), an.variant(KEYISH, "Range")

    def bits(eng, x, d=0):
        """(call that decoded what x is made of, what was done to the bits since, whole?) or None."""
        ops = set()
        while x[0] == "mut":
            for s in eng.muts.get(x, {x[2]}):
                ops.add(s)
            x = x[1]
        for y in roots(eng, x):
            o2 = set(ops)
            while y[0] == "mut":
                o2 |= set(eng.muts.get(y, {y[2]}))
                y = y[1]
            if y[0] in ("r", "o"):
                s = eng.sites[y[1]]
                if getattr(s.callee, "id", None) == dec.id:
                    return y, frozenset(o2)
                if d < 8 and (THROUGH.search(s.name) or ADD.match(s.name) or ALTER.search(s.name) and "bitvec" in s.name or s.name in ("Index::index", "Not::not")):
                    for a in call_args(eng, y):
                        b = bits(eng, a[0], d + 1) if a else None
                        if b is not None:
                            if not THROUGH.search(s.name):
                                o2.add(y[1])
                            return b[0], b[1] | o2
        return None

    def one(eng, st, v):
        for x in strip(eng, v):
            b = bits(eng, x)
            if b is not None:
                # what is done to the bytes, once they are bytes, is seen by Pieces
                return ("bytes", b[0], frozenset(s for s in b[1] if not BYTES.match(eng.sites[s].name)))
        return None
    P = [None]

    def on_call(eng, st, ev):
        if not ADD.match(ev.name):
            P[0].put(st, ev)

    def on_fact(eng, st, v, val, eq):
        x = v[1] if v[0] == "discr" else v
        truth = (val == 1) == eq
        for y in roots(eng, x):
            nm = name_of(eng, y)
            m = SUCC.search(nm)
            b = None
            for a in call_args(eng, y) if m else ():
                b = bits(eng, a[0]) if a else None
            if m and b is not None and not b[1]:
                if m.group(1) in ("all", "not_all"):
                    add(st, "ones", truth if m.group(1) == "all" else not truth)
                elif m.group(1) == "is_empty":
                    if truth:
                        add(st, "ones", True)
                elif m.group(1) in ("any", "not_any", "some"):
                    add(st, "misc", nm)
                else:
                    add(st, "other")
                return
        if v[0] == "bin" and v[1] in ("Eq", "Lt"):
            for a, b, first in ((v[2], v[3], True), (v[3], v[2], False)):
                k = number(eng, b)
                if full(eng, a) and k is not None:
                    # how long it is says nothing about the bits, unless there are none
                    if truth and (v[1] == "Eq" and k == 0 or v[1] == "Lt" and first and k == 1) or not truth and v[1] == "Lt" and not first and k == 0:
                        add(st, "ones", True)
                    return
        if full(eng, v):
            if eq and val == 0:
                add(st, "ones", True)
            return
        if v[0] == "discr" and v[1][0] in ("r", "o") and getattr(eng.sites[v[1][1]].callee, "id", None) == dec.id:
            return
        if eq and val in (0, 1) and any(name_of(eng, y) in ("next", "Iterator::next") and any(a and (bits(eng, a[0]) or (0, 1))[1] == frozenset() for a in call_args(eng, y))
                                        for y in roots(eng, v)):
            # one of the bits
            if val == 0:
                add(st, "ones", False)
            return
        if any(y[0] in ("r", "o") and getattr(eng.sites[y[1]].callee, "id", None) == dec.id for y in eng.origins(v)):
            add(st, "other")

    def on_end(eng, st, ev, it):
        b = bits(eng, it[2][0])
        if b is not None and not b[1] and not has(st, "ones", False):
            add(st, "ones", True)

    def full(eng, v):
        """The length of the decoded bits."""
        return any(name_of(eng, y).endswith("::len") and any(a and (bits(eng, a[0]) or (0, 1))[1] == frozenset() for a in call_args(eng, y)) for y in roots(eng, v))

    def names(eng, ops):
        return {eng.sites[s].name for s in ops}

    def operand(eng, s):
        """Is what is added a single one bit?  True, False or None."""
        for a in call_args(eng, mk("r", s)):
            for y in roots(eng, a[1]):
                w = width(eng, y)
                if w is not None:
                    return w
        return None

    def width(eng, y, d=0):
        if y[0] not in ("r", "o") or d > 6:
            return None
        nm = name_of(eng, y)
        for a in call_args(eng, y):
            if nm.endswith("::repeat") and len(a) == 2:
                k = number(eng, a[1])
                return None if k is None or a[0][0] != "c" else k == 1 and a[0][2] == 1
            if nm == "Index::index":
                r = a[1]
                if r[0] == "agg" and r[1].endswith(("RangeTo", "Range")):
                    k = number(eng, r[3][-1])
                    bs = [static(eng, z) for z in eng.origins(a[0]) if z[0] == "c"]
                    bs = [z for z in bs if z]
                    if k and len(bs) == 1 and k <= 8 * len(bs[0]):
                        # the first k bits, the most significant ones first
                        return int.from_bytes(bs[0], "big") >> (8 * len(bs[0]) - k) == 1
                return None
            if a:
                for z in roots(eng, a[0]):
                    w = width(eng, z, d + 1)
                    if w is not None:
                        return w
        return None

    def static(eng, z):
        if z[1] == "bytes":
            return bytes.fromhex(z[2]) if isinstance(z[2], str) else bytes(z[2])
        return None

    def check(eng, st, what, val, want, at):
        """The bytes of a bound: None if not recognised, else the operations on its bits."""
        seq = P[0].flat(st, val)
        bs = [x for x in seq if x[0] == "bytes"]
        if len(bs) != 1 or "?" in seq:
            ck.notes.append("how the %s of a range is put together was not recognised" % what)
            return None
        return bs[0][2]

    def on_ret(eng, st, f, ctx, v):
        if not outermost(eng, ctx) or okval(v) is None:
            return
        r = okval(v)
        at = (fn.span, eng.chain(ctx))
        for x in roots(eng, r) if r is not False else ():
            if x[0] != "agg" or x[1] != KEYISH or x[2] not in (kv, rv):
                continue
            n.hit("keys read from what the user gave", an.adts[KEYISH]["v"][x[2]][0], repr(sorted(map(repr, st.mon)))[:300])
            ops = check(eng, st, "start", x[3][1], (), at)
            if ops:
                nm = names(eng, ops)
                if any(ALTER.search(z) for z in nm):
                    ck.bad("start altered", "%s starts the search for a key at something other than the abbreviation: %s" % (fn.pretty(), ", ".join(sorted(nm))), *at)
                elif nm != {"Index::index"}:
                    ck.notes.append("what is done to the bits of the start was not recognised: " + ", ".join(sorted(nm)))
            if x[2] == kv:
                continue
            ones = {t[1] for t in st.mon if t[0] == "ones"}
            other = any(t[0] == "other" for t in st.mon)
            for y in strip(eng, x[3][2]):
                if y[0] != "agg" or y[1] != OPTION:
                    ck.notes.append("the end of a range was not recognised")
                    continue
                if y[2] == 0:
                    if ones == {True}:
                        continue
                    if ones or not other:
                        ck.bad("no end", "%s can search for an abbreviation without an upper bound although not all of its bits are ones: keys that do not match "
                               "are found" % fn.pretty(), *at)
                    continue
                ops = check(eng, st, "end", y[3][0], (), at)
                if ops is None:
                    continue
                nm = names(eng, ops)
                adds = [s for s in ops if ADD.match(eng.sites[s].name)]
                rest = {z for z in nm if not ADD.match(z)}
                if not adds and not rest:
                    ck.bad("end is the start", "%s ends the search for an abbreviation where it starts" % fn.pretty(), *at)
                elif any(ALTER.search(z) for z in rest):
                    if adds:
                        ck.bad("end altered", "%s ends the search for an abbreviation at something other than its successor: %s" % (fn.pretty(), ", ".join(sorted(rest))), *at)
                    else:
                        ck.notes.append("how the end of a range is computed was not recognised: " + ", ".join(sorted(rest)))
                elif rest:
                    ck.notes.append("how the end of a range is computed was not recognised: " + ", ".join(sorted(rest)))
                elif len(adds) != 1:
                    ck.bad("end beyond", "%s adds to the abbreviation more than once to get the end of its range" % fn.pretty(), *at)
                else:
                    one_bit = operand(eng, adds[0])
                    if one_bit is False:
                        ck.bad("end not the successor", "%s does not add one to the abbreviation to get the end of its range" % fn.pretty(), *at)
                    elif one_bit is None:
                        ck.notes.append("what is added to get the end of a range was not recognised")
                    if ones != {False} and (ones or not other):
                        ck.bad("end wraps", "%s computes the end of the range of an abbreviation whose bits may all be ones: the successor does not fit and the range "
                               "is empty" % fn.pretty(), *at)

    m = Mon(cut=[dec], on_call=on_call, on_fact=on_fact, on_ret=on_ret, on_end=on_end)
    e = an.engine(m)
    P[0] = Pieces(e, one)
    ck.absorb(e, e.run(fn.id))
    ck.notes[:] = list(dict.fromkeys(ck.notes))
    if not n["keys read from what the user gave"]:
        raise CheckError("no key is read from what the user gave")
    n.into(ck)
