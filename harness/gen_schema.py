"""Generator of type schemas: emits Metaresc declarations and, beside them, the oracle's own tables.

usage: gen_schema.py core OUT.c [OUT.h]   |   gen_schema.py random SEED N OUT.c [OUT.h]
"""
import random, sys

# C spelling -> oracle's basic type (model.c has one mt_t for each spelling)
INTS = {
    "int8_t": ("mt_int8_t", 8, 1), "uint8_t": ("mt_uint8_t", 8, 0),
    "int16_t": ("mt_int16_t", 16, 1), "uint16_t": ("mt_uint16_t", 16, 0),
    "int32_t": ("mt_int32_t", 32, 1), "uint32_t": ("mt_uint32_t", 32, 0),
    "int64_t": ("mt_int64_t", 64, 1), "uint64_t": ("mt_uint64_t", 64, 0),
    "mr_int128_t": ("mt_int128", 128, 1), "mr_uint128_t": ("mt_uint128", 128, 0),
    "signed char": ("mt_schar", 8, 1), "unsigned char": ("mt_uchar", 8, 0),
    "short": ("mt_short", 16, 1), "unsigned short": ("mt_ushort", 16, 0),
    "int": ("mt_int", 32, 1), "unsigned": ("mt_unsigned", 32, 0), "unsigned int": ("mt_uint", 32, 0),
    "long": ("mt_long", 64, 1), "unsigned long": ("mt_ulong", 64, 0),
    "long long": ("mt_llong", 64, 1), "unsigned long long": ("mt_ullong", 64, 0),
    "size_t": ("mt_size_t", 64, 0), "ssize_t": ("mt_ssize_t", 64, 1),
}
FLOATS = {"float": "mt_float", "double": "mt_double", "long double": "mt_ldouble",
          "complex float": "mt_cfloat", "complex double": "mt_cdouble", "complex long double": "mt_cldouble"}
BASIC = {"bool": "mt_bool", "char": "mt_char", "string_t": "mt_string", "char *": "mt_charptr"}
BASIC.update({k: v[0] for k, v in INTS.items()})
BASIC.update(FLOATS)

class Field:
    def __init__(self, name, decl, mtype, offset=None, size_of=None, discr=None, overrides=(), flags=(), bits=None, ctype=None, refs=()):
        self.name, self.decl, self.mtype, self.offset = name, decl, mtype, offset
        self.size_of = size_of       # name of the size field of this array/pointer
        self.discr = discr           # discriminator name when an union is below
        self.overrides = overrides
        self.flags = set(flags)
        self.bits = bits
        self.ctype = ctype
        self.refs = refs             # struct/union types referenced (for context dependency)

class Compound:
    def __init__(self, name, kind, fields, attrs="", meta=""):
        self.name, self.kind, self.fields, self.attrs, self.meta = name, kind, fields, attrs, meta

class Enum:
    def __init__(self, name, values, packed, dup_ok=False):
        # values: (enumerator, value or None for implicit, meta)
        self.name, self.values, self.packed = name, values, packed
    def resolved(self):
        out, nxt = [], 0
        for n, v, m in self.values:
            if v is None:
                v = nxt
            out.append((n, v, m))
            nxt = v + 1
        return out
    def width(self):
        vs = [v for _, v, _ in self.resolved()]
        lo, hi = min(vs), max(vs)
        sgn = lo < 0
        for b in ([8, 16, 32, 64] if self.packed else [32, 64]):
            if sgn and -(1 << (b - 1)) <= lo and hi < (1 << (b - 1)):
                return b, 1
            if not sgn and hi < (1 << b):
                return b, 0
        raise ValueError(self.name)

class Schema:
    def __init__(self, prefix):
        self.prefix = prefix
        self.items = []       # Enum | Compound | ('chararr', name, n) | ('func', ...) in order
        self.enums, self.compounds, self.chararrs, self.funcs = {}, {}, {}, {}
        self.roots = []
        self.forward = set()
        self.discr_names = set()
        self.uniq = 0
    # ---- types
    def enum(self, name, values, packed=False):
        e = Enum(name, values, packed)
        self.enums[name] = e
        self.items.append(e)
        return name
    def chararr(self, name, n):
        self.chararrs[name] = n
        self.items.append(("chararr", name, n))
        return name
    def functype(self, name, ret, args):
        self.funcs[name] = (ret, args)
        self.items.append(("func", name, ret, args))
        return name
    def compound(self, kind, name, fields, attrs="", meta=""):
        c = Compound(name, kind, fields, attrs, meta)
        self.compounds[name] = c
        self.items.append(c)
        return name
    def struct(self, name, fields, **kw):
        return self.compound("struct", name, fields, **kw)
    def union(self, name, fields, **kw):
        return self.compound("union", name, fields, **kw)
    def mt(self, ct):
        if ct in BASIC:
            return "&" + BASIC[ct]
        if ct == "void *":
            return "&mt_voidptr"
        if ct == "mr_ptr_t":
            return "&mt_tptr"
        assert ct.endswith("_t"), ct
        return "&mt_" + ct
    def q(self, s):
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    def refs_of(self, ct):
        return (ct,)
    # ---- fields
    def scalar(self, ct, name, meta="", basic_form=False, flags=(), discr=None, overrides=()):
        """value of a basic, enum, char array, struct or union type"""
        if basic_form:
            decl = "%s %s" % (ct, name)
        else:
            m = discr if discr is not None else meta
            extra = ""
            if m:
                extra = ", , " + self.q(m)
            if overrides:
                if not m:
                    extra = ", , "
                o = self.override(overrides)
                extra += ", { %s }, \"mr_ud_override_t\", sizeof (%s)" % (o, o)
            decl = "(%s, %s%s)" % (ct, name, extra)
        return Field(name, decl, self.mt(ct), discr=discr, overrides=overrides, flags=flags, ctype=ct, refs=self.refs_of(ct))
    def override(self, overrides):
        return "((mr_ud_override_t[]){ " + ", ".join("{ %s, \"%s\" }" % (v, b) for v, b in overrides) + " })"
    def bitfield(self, ct, name, bits, flags=(), void=False):
        decl = "(%s, %s, : %d)" % (ct, name, bits)
        if void:
            decl = "VOID " + decl
            flags = set(flags) | {"VOID"}
        return Field(name, decl, None, bits=bits, ctype=ct, flags=flags)
    def array(self, ct, name, dims, discr=None, size=None, by="string", overrides=(), flags=()):
        sfx = "".join("[%d]" % d for d in dims)
        extra = ""
        if discr is not None:
            extra = ", " + self.q(discr)
        elif size:
            extra = ", "
        if size:
            extra += self.size_ref(size, by)
        elif overrides:
            o = self.override(overrides)
            extra += ", { %s }, \"mr_ud_override_t\", sizeof (%s)" % (o, o)
        decl = "(%s, %s, %s%s)" % (ct, name, sfx, extra)
        base = ct[:-1].strip() if ct.endswith("*") and ct not in BASIC and ct != "void *" else None
        if base is not None:
            m = "&(const mt_t){ .kind = MK_PTR, .name = \"ptr\", .size = sizeof (void *), .elem = %s }" % self.mt(base)
            refs = self.refs_of(base)
        else:
            m = self.mt(ct)
            refs = self.refs_of(ct)
        for d in reversed(dims):
            m = "&(const mt_t){ .kind = MK_ARRAY, .name = \"array\", .count = %d, .elem = %s }" % (d, m)
        return Field(name, decl, m, discr=discr, size_of=size, overrides=overrides, flags=flags, ctype=ct, refs=refs)
    def size_ref(self, size, by):
        if by == "string":
            return ', { "%s" }, "string"' % size
        return ", { .offset = offsetof (@SELF@, %s) }, \"offset\"" % size
    def ptr(self, ct, name, size=None, by="string", discr=None, overrides=(), depth=1, struct_form=False, flags=(), const=""):
        """pointer to ct; resizable when size names a field"""
        spelled = ("struct " if struct_form else "") + ct
        if ct == "char" :
            extra_tail = (", " if discr is not None or size or overrides else ", , , ") + ".stype.mr_type = MR_TYPE_POINTER"
        else:
            extra_tail = ""
        extra = ""
        if discr is not None or size or overrides:
            extra = ", , " + (self.q(discr) if discr is not None else "")
        if size:
            extra += self.size_ref(size, by)
        elif overrides:
            o = self.override(overrides)
            extra += ", { %s }, \"mr_ud_override_t\", sizeof (%s)" % (o, o)
        decl = "(%s%s %s, %s%s%s)" % (const, spelled, "*" * depth, name, extra, extra_tail)
        m = self.mt(ct)
        for _ in range(depth):
            m = "&(const mt_t){ .kind = MK_PTR, .name = \"ptr\", .size = sizeof (void *), .elem = %s }" % m
        return Field(name, decl, m, discr=discr, size_of=size, overrides=overrides, flags=flags, ctype=ct, refs=self.refs_of(ct))
    def chararray(self, name, n, flags=()):
        decl = '(char, %s, [%d], , .stype.mr_type = MR_TYPE_CHAR_ARRAY, .stype.is_array = false)' % (name, n)
        return Field(name, decl, "&(const mt_t){ .kind = MK_CHARARR, .name = \"chararray\", .size = %d, .count = %d }" % (n, n), flags=flags, ctype="chararr")
    def void(self, ct, name, suffix="", flags=()):
        return Field(name, "VOID (%s, %s%s)" % (ct, name, ", " + suffix if suffix else ""), None if suffix or ct not in BASIC else self.mt(ct), flags=set(flags) | {"VOID"}, ctype=ct)
    def func(self, name, ret, args):
        return Field(name, "(%s, %s, (%s))" % (ret, name, args), "&mt_func", ctype="func")
    def voidptr(self, name):
        return Field(name, "(void *, %s)" % name, "&mt_voidptr", ctype="void *")
    def tptr(self, name, discr):
        return Field(name, '(mr_ptr_t, %s, , "%s")' % (name, discr), "&mt_tptr", discr=discr, ctype="mr_ptr_t")
    def anon(self, branches, discr=None, name="", overrides=(), attrs=""):
        """anonymous union; branches are fields of the enclosing structure"""
        self.uniq += 1
        open_ = "ANON_UNION (%s%s)" % (name, ", " + attrs if attrs else "")
        close = "END_ANON_UNION ("
        if discr is not None:
            close += self.q(discr)
        if overrides:
            o = self.override(overrides)
            close += ("" if discr is not None else '""') + ", { %s }, \"mr_ud_override_t\", sizeof (%s)" % (o, o)
        close += ")"
        decl = ", ".join([open_] + [b.decl for b in branches] + [close])
        f = Field(name, decl, None, discr=discr if discr is not None else "", overrides=overrides, ctype="anon")
        f.branches = branches
        f.uid = "%s_anon%d" % (self.prefix, self.uniq)
        return f
    # ---- emission
    def all_fields(self, fs):
        for f in fs:
            yield f
            if f.ctype == "anon":
                yield from self.all_fields(f.branches)
    def unresolved(self):
        """discriminator names every compound needs from outside"""
        need = {n: set() for n in self.compounds}
        changed = True
        while changed:
            changed = False
            for n, c in self.compounds.items():
                own = {f.name for f in self.all_fields(c.fields)}
                s = set()
                for f in self.all_fields(c.fields):
                    if f.discr:
                        s.add(f.discr)
                    for r in f.refs:
                        s |= need.get(r, set())
                s -= own
                if s != need[n]:
                    need[n] = s
                    changed = True
        return need
    def emit_fields(self, c, fs, out, arr):
        rows = []
        names = [f.name for f in c.fields]
        for f in fs:
            flags = ["MF_" + x for x in sorted(f.flags)]
            if f.name and f.name in self.discr_names:
                flags.append("MF_DISCR")
            row = ['.name = "%s"' % f.name]
            if f.ctype == "anon":
                sub = self.emit_fields(c, f.branches, out, f.uid)
                out.append("static const mt_t mt_%s = { .kind = MK_UNION, .name = \"%s\", .size = 0, .f = %s, .nf = %d };" % (f.uid, f.uid, f.uid, len(f.branches)))
                row.append(".type = &mt_%s" % f.uid)
                flags.append("MF_ANON")
            elif f.bits is not None:
                fn = "%s_%s" % (c.name, f.name)
                out.append("static unsigned __int128 get_%s (const void * p) { return ((const %s *)p)->%s; }" % (fn, c.name, f.name))
                out.append("static void set_%s (void * p, unsigned __int128 x) { ((%s *)p)->%s = x; }" % (fn, c.name, f.name))
                row.append(".type = &(const mt_t){ .kind = MK_BITF, .name = \"bitfield\", .elem = %s, .count = %d, .get = get_%s, .set = set_%s }" % (self.mt(f.ctype), f.bits, fn, fn))
            else:
                row.append(".type = %s" % (f.mtype or "NULL"))
                row.append(".offset = offsetof (%s, %s)" % (c.name, f.name))
            if f.size_of:
                row.append(".size_field = %d" % (names.index(f.size_of) + 1))
            if f.discr is not None:
                row.append('.discr = "%s"' % f.discr)
            if f.overrides:
                row.append(".overrides = (const mo_t[]){ %s, { 0, NULL } }" % ", ".join('{ %s, "%s" }' % o for o in f.overrides))
            if flags:
                row.append(".flags = " + " | ".join(flags))
            rows.append("  { " + ", ".join(row) + " },")
        out.append("static const mf_t %s[] = {\n%s\n  { NULL }\n};" % (arr, "\n".join(rows)))
        return arr
    def finish(self):
        for c in self.compounds.values():
            for f in self.all_fields(c.fields):
                if f.discr:
                    self.discr_names.add(f.discr)
                for g in self.all_fields(c.fields):
                    if f.size_of == g.name and f.size_of:
                        g.flags.add("SIZE")
    def typedefs(self):
        o = []
        for it in self.items:
            if isinstance(it, Enum):
                vals = []
                for n, v, m in it.values:
                    if v is None and m is None:
                        vals.append(n)
                    else:
                        lit = "" if v is None else ("= %d%s" % (v, "ULL" if v > 0x7fffffffffffffff else "LL" if v > 0x7fffffff else "") if v != -(1 << 63) else "= (-9223372036854775807LL - 1)")
                        vals.append("(%s, %s%s)" % (n, lit, "" if m is None else ', "%s"' % m))
                o.append("TYPEDEF_ENUM (%s, %s%s)" % (it.name, "ATTRIBUTES (__attribute__ ((packed))), " if it.packed else "", ", ".join(vals)))
            elif isinstance(it, Compound):
                attrs = ""
                if it.attrs or it.meta:
                    attrs = "ATTRIBUTES (%s%s), " % (it.attrs, ', "%s"' % it.meta if it.meta else "")
                fs = ",\n\t".join(f.decl for f in it.fields).replace("@SELF@", it.name)
                o.append("TYPEDEF_%s (%s, %s\n\t%s)" % (it.kind.upper(), it.name, attrs, fs))
            elif it[0] == "func":
                o.append("TYPEDEF_FUNC (%s, %s, (%s))" % (it[2], it[1], it[3]))
        return "\n".join(o)
    def declarations(self):
        return "\n".join(["typedef char %s[%d];" % (n, k) for n, k in self.chararrs.items()] + ["struct %s;" % f for f in sorted(self.forward)] +
                         ["#undef MR_MODE\n#define MR_MODE PROTO", self.typedefs(), "#undef MR_MODE"]) + "\n"
    def emit(self):
        self.finish()
        need = self.unresolved()
        o = ["/* generated by gen_schema.py */", "#include <metaresc.h>", "#include <stdbool.h>", "#include <complex.h>", "#include \"model.h\"", "#include \"ops.h\""]
        for n, k in self.chararrs.items():
            o.append("typedef char %s[%d];" % (n, k))
        for f in sorted(self.forward):
            o.append("struct %s;" % f)
        o.append("#undef MR_MODE\n#define MR_MODE PROTO")
        o.append(self.typedefs())
        o.append("#undef MR_MODE\n#define MR_MODE DESC")
        o.append(self.typedefs())
        for n in self.chararrs:
            o.append("MR_TYPEDEF_DESC_BI (%s);" % n)
        o.append("#undef MR_MODE")
        # oracle's tables
        for n in list(self.compounds) + list(self.enums) + list(self.chararrs) + list(self.funcs):
            o.append("extern const mt_t mt_%s;" % n)
        for n, k in self.chararrs.items():
            o.append("const mt_t mt_%s = { .kind = MK_CHARARR, .name = \"%s\", .size = %d, .count = %d };" % (n, n, k, k))
        for n in self.funcs:
            o.append("const mt_t mt_%s = { .kind = MK_FUNC, .name = \"%s\", .size = sizeof (void *) };" % (n, n))
        for e in self.enums.values():
            vals = ", ".join('{ "%s", %s, %s }' % (n, ("%dULL" % v if v > 0x7fffffffffffffff else "%dLL" % v) if v != -(1 << 63) else "(-9223372036854775807LL - 1)", '"%s"' % m if m is not None else '""') for n, v, m in e.resolved())
            o.append("static const me_t me_%s[] = { %s };" % (e.name, vals))
            o.append("const mt_t mt_%s = { .kind = MK_ENUM, .name = \"%s\", .size = sizeof (%s), .is_signed = ((%s)-1 < 0), .bits = 8 * sizeof (%s), .ev = me_%s, .nev = %d };" % (e.name, e.name, e.name, e.name, e.name, e.name, len(e.values)))
        for c in self.compounds.values():
            self.emit_fields(c, c.fields, o, "mf_" + c.name)
            o.append("const mt_t mt_%s = { .kind = MK_%s, .name = \"%s\", .size = sizeof (%s), .align = __alignof__ (%s), .f = mf_%s, .nf = %d, .context = %d };" %
                     (c.name, c.kind.upper(), c.name, c.name, c.name, c.name, len(c.fields), 1 if need[c.name] else 0))
        for r in self.roots:
            ident = r.replace(" ", "_").replace("*", "P")
            o.append("MODEL_OPS (%s, %s, %s_%s)" % (r, self.mt(r), self.prefix, ident))
        o.append("const mops_t * const %s_roots[] = { %s, NULL };" % (self.prefix, ", ".join("&ops_%s_%s" % (self.prefix, r.replace(" ", "_").replace("*", "P")) for r in self.roots)))
        tl = list(self.compounds) + list(self.enums) + list(self.chararrs)
        o.append("const mt_t * const %s_types[] = { %s, NULL };" % (self.prefix, ", ".join("&mt_" + n for n in tl)))
        return "\n".join(o) + "\n"

# ------------------------------------------------------------------ core schema
def core():
    s = Schema("core")
    s.enum("ce_plain_t", [("CE_A", None, None), ("CE_B", None, None), ("CE_C", 7, "c"), ("CE_D", None, None)])
    s.enum("ce_packed_t", [("CP_X", 1, None), ("CP_Y", 3, None), ("CP_Z", 200, None)], packed=True)
    s.enum("ce_signed_t", [("CS_M", -5, None), ("CS_Z", 0, None), ("CS_P", 100, None)], packed=True)
    s.enum("ce_mask_t", [("CM_0", 0, None), ("CM_1", 1, None), ("CM_2", 2, None), ("CM_4", 4, None), ("CM_8", 8, None), ("CM_80", 0x80, None)], packed=True)
    s.enum("ce_mask64_t", [("CL_1", 1, None), ("CL_2", 2, None), ("CL_H", 1 << 62, None)], packed=True)
    s.enum("ce_smask_t", [("CQ_1", 1, None), ("CQ_2", 2, None), ("CQ_4", 4, None), ("CQ_N", -128, None)], packed=True)
    s.enum("ce_16_t", [("C16_A", 0x1234, None), ("C16_B", 0xffff, None)], packed=True)
    s.enum("ce_64_t", [("C64_A", -1 << 63, None), ("C64_B", -1, None), ("C64_C", (1 << 63) - 1, None)])
    s.enum("ce_u64_t", [("CU64_A", 0, None), ("CU64_B", (1 << 64) - 1, None)])
    s.enum("ce_d_t", [("CD_A", None, "ua"), ("CD_B", None, "ub"), ("CD_C", None, "uc"), ("CD_N", 9, "nosuch"), ("CD_S", 12, None)])
    s.enum("ce_dp_t", [("CDP_A", -3, "ub"), ("CDP_B", 0, "ua"), ("CDP_C", 5, "uc")], packed=True)
    s.chararr("ca5_t", 5)
    s.chararr("ca16_t", 16)
    s.functype("cf_t", "int", "int, const char *")

    S, B, A, P = s.scalar, s.bitfield, s.array, s.ptr
    # every scalar
    fs = []
    for i, ct in enumerate(sorted(INTS)):
        fs.append(S(ct, "i%d" % i, meta="an integer" if i % 5 == 0 else ""))
    fs += [S("bool", "b", basic_form=True), S("char", "c", basic_form=True)]
    fs += [S("float", "f1", basic_form=True), S("double", "f2", basic_form=True), S("long double", "f3", basic_form=True)]
    fs += [S("complex float", "z1"), S("complex double", "z2"), S("complex long double", "z3")]
    for i, e in enumerate(list(s.enums)):
        fs.append(S(e, "e%d" % i))
    fs += [s.func("fn", "int", "int"), S("cf_t", "fn2")]
    s.struct("c_scalars_t", fs)
    s.struct("c_bits_t", [
        B("int8_t", "b0", 3), B("uint8_t", "b1", 5), B("int16_t", "b2", 11), B("uint16_t", "b3", 1), B("int32_t", "b4", 31),
        B("uint32_t", "b5", 32), B("int64_t", "b6", 64), B("uint64_t", "b7", 63), B("int64_t", "b8", 33), B("uint64_t", "b9", 40),
        B("bool", "b10", 1), B("unsigned", "b11", 7), B("int", "b12", 2), B("ce_plain_t", "b13", 4), B("ce_signed_t", "b14", 8),
        B("ce_mask_t", "b15", 8), B("ce_d_t", "b16", 4), B("uint64_t", "b17", 1), B("char", "b18", 8), B("ce_packed_t", "b19", 8)])
    s.struct("c_pbits_t", [B("uint8_t", "b0", 3), B("int64_t", "b1", 62), B("uint16_t", "b2", 13), B("int32_t", "b3", 17), B("uint64_t", "b4", 64),
        B("mr_uint128_t", "b5", 127), B("mr_int128_t", "b6", 100), B("int8_t", "b7", 1)], attrs="__attribute__ ((packed))")
    s.struct("c_strings_t", [S("string_t", "s1", basic_form=True), S("char *", "s2"), S("char *", "s3"), S("ca5_t", "a5"), S("ca16_t", "a16"),
        s.chararray("a1", 1), s.chararray("a33", 33), A("char *", "sa", [3]), A("ca5_t", "ca", [2]), A("char", "chars", [4]), S("char", "ch"), P("string_t", "ps"), P("ca5_t", "pca"),
        P("string_t", "rs", size="rs_size"), S("uint8_t", "rs_size")])
    # linked and shared structures
    s.forward.add("c_peer_t")
    s.struct("c_node_t", [S("int", "v", basic_form=True), P("c_node_t", "next"), P("c_node_t", "prev"), P("c_peer_t", "peer", struct_form=True),
                          S("string_t", "name"), P("int", "pv")])
    s.struct("c_peer_t", [S("double", "w"), P("c_node_t", "owner"), S("c_node_t", "inl"), P("c_peer_t", "other"), A("c_node_t *", "pa", [2])])
    s.struct("c_tree_t", [P("c_tree_t", "kids", size="kids_size", by="offset"), S("ssize_t", "kids_size"), S("int16_t", "tag"), P("c_tree_t", "ref"),
                          S("char *", "label")])
    s.struct("c_ptrs_t", [P("int", "pi"), P("bool", "pb"), P("ce_plain_t", "pe"), P("double", "pd"), P("complex float", "pz"), P("mr_int128_t", "px"),
                          P("int", "ppi", depth=2), P("c_node_t", "ppn", depth=2), s.voidptr("vp"), s.voidptr("vp2"),
                          S("int", "target"), S("c_node_t", "node"), P("int", "pi2"), P("long", "pl"), P("uint8_t", "pu"), A("int *", "ai", [2]),
                          P("char", "pc"), P("mr_uint128_t", "pux"), P("float", "pf"), P("long double", "pld")])
    # dynamic arrays with size fields of all kinds
    s.struct("c_dyn_t", [
        P("int8_t", "d1", size="n1"), S("int", "n1", basic_form=True),
        P("uint32_t", "d2", size="n2", by="offset"), s.void("ssize_t", "n2"),
        P("double", "d3", size="n3"), S("uint8_t", "n3"),
        P("c_node_t", "d4", size="n4"), S("size_t", "n4"),
        P("string_t", "d5", size="n5"), s.void("uint16_t", "n5"),
        P("int16_t", "d6", size="n6"), B("uint16_t", "n6", 9),
        P("bool", "d7", size="n7"), P("int", "n7"),
        P("ce_signed_t", "d8", size="n8"), S("int64_t", "n8"),
        P("int", "d9", size="n9", depth=2), S("uint64_t", "n9"),
        P("uint8_t", "d10", size="n10"), S("int8_t", "n10"),
        P("char", "d11", size="n11", by="offset"), S("size_t", "n11"),
        P("float", "d12", size="n12"), s.void("int32_t", "n12"),
        P("int8_t", "d13", size="n13"), S("char", "n13"),
        P("mr_int128_t", "d14", size="n14"), S("mr_uint128_t", "n14"),
        P("ca5_t", "d15", size="n15"), S("long", "n15"),
        P("uint64_t", "d16", size="n16"), B("int8_t", "n16", 7),
        P("complex double", "d17", size="n17", by="offset"), S("unsigned short", "n17"),
        P("ce_16_t", "d18", size="n18"), S("ssize_t", "n18"),
        P("long double", "d19", size="n19"), S("ssize_t", "n19"),
        P("int64_t", "d20", size="n20"), S("ssize_t", "n20"),
    ])
    # fixed arrays
    s.struct("c_elem_t", [S("int8_t", "x"), S("string_t", "y")])
    s.struct("c_arrays_t", [A("int", "a1", [3]), A("int16_t", "a2", [2, 3]), A("uint8_t", "a3", [3, 1, 2]), A("int64_t", "a4", [2, 1, 2, 3]),
        A("c_elem_t", "ae", [2, 2]), A("string_t", "as", [1, 2]), A("double", "ad", [2]), A("ce_mask_t", "am", [3]), A("int *", "ap", [2, 2]),
        A("bool", "ab", [2, 3]), A("ca5_t", "ac", [2, 2]), A("complex float", "az", [2]), A("char", "ach", [2, 2]), A("int", "a0", [0]),
        A("mr_int128_t", "ax", [2]), A("long double", "ald", [2]), A("uint16_t", "a23", [3, 2]), A("int32_t", "a132", [1, 3, 2])])
    s.struct("c_nothing_t", [])
    s.struct("c_shared_offset_t", [P("int", "a", size="n", by="offset"), S("c_nothing_t", "e1"), A("uint8_t", "z1", [0]), S("ssize_t", "n"), S("c_nothing_t", "e2"),
        A("int16_t", "l", [4], size="m", by="offset"), A("uint8_t", "z2", [0]), S("c_nothing_t", "e3"), S("uint8_t", "m"), S("c_nothing_t", "e4")])
    s.struct("c_limited_t", [A("int", "l1", [5], size="m1"), S("int", "m1", basic_form=True), A("c_elem_t", "l2", [3], size="m2", by="offset"), s.void("size_t", "m2"),
        A("uint8_t", "l3", [7], size="m3"), S("uint8_t", "m3"), A("string_t", "l4", [3], size="m4", by="offset"), S("int16_t", "m4"),
        A("double", "l5", [4], size="m5"), B("uint32_t", "m5", 6)])
    # unions with every kind of discriminator
    ub = lambda: [S("int32_t", "ua"), S("double", "ub"), S("string_t", "uc")]
    s.union("c_u_t", ub())
    s.struct("c_us_t", [S("int", "k"), S("string_t", "t")])
    # names that mean something in one of the languages
    names = ["t", "nil", "inf", "nan", "NaN", "Inf", "i", "e", "E1", "x0", "_", "__", "ref", "ref_idx", "isnull", "size", "xml", "y", "no", "null", "on", "f1", "T",
             "name", "type", "ptr", "a_very_long_name_of_a_field_0123456789_0123456789_0123456789_0123456789_0123456789", "A", "a"]
    s.struct("c_names_t", [S(["int", "string_t", "bool", "double", "ce_plain_t", "char"][i % 6], n) for i, n in enumerate(names)]
             + [P("c_us_t", "nul"), P("int", "TRU"), A("c_us_t", "ar", [2])])
    s.union("c_u2_t", [S("c_us_t", "ua"), A("uint8_t", "ub", [3]), P("c_node_t", "uc"), S("ca5_t", "ud")])
    s.struct("c_uni_t", [
        S("c_u_t", "x1", discr="di"), S("int", "di", basic_form=True),
        S("c_u_t", "x2", discr="de"), S("ce_d_t", "de"),
        S("c_u2_t", "x3", discr="ds"), S("string_t", "ds"),
        S("c_u2_t", "x4", discr="dca"), S("ca5_t", "dca"),
        S("c_u_t", "x5", discr="db"), S("bool", "db"),
        S("c_u_t", "x6", discr="dbf"), B("unsigned", "dbf", 3),
        S("c_u_t", "x7", discr="debf"), B("ce_d_t", "debf", 4),
        S("c_u_t", "x8", discr="dpi"), P("int", "dpi"),
        S("c_u_t", "x9", discr="dpe"), P("ce_d_t", "dpe"),
        S("c_u_t", "x10", discr="dst"), S("c_us_t", "dst"),
        S("c_u_t", "x11", discr="dar"), A("uint8_t", "dar", [2]),
        S("c_u_t", "x12"),
        S("c_u_t", "x13", discr="dep"), S("ce_dp_t", "dep"),
        S("c_u2_t", "x14", discr="dps"), P("string_t", "dps"),
        S("c_u_t", "x15", discr="dcc"), S("uint64_t", "dcc"),
    ])
    s.struct("c_ush_t", [P("int", "w"), S("int", "z")])
    s.struct("c_unj_t", [
        S("c_u_t", "x1", discr="jap"), A("int *", "jap", [2]),
        S("c_u_t", "x2", discr="jpp"), P("int", "jpp", depth=2),
        S("c_u_t", "x3", discr="jpst"), P("c_us_t", "jpst"),
        S("c_u_t", "x4", discr="ju128"), S("mr_uint128_t", "ju128"),
        S("c_u_t", "x5", discr="ji128", overrides=[(-2, "uc"), (7, "ub")]), S("mr_int128_t", "ji128"),
        S("c_u_t", "x6", discr="jae"), A("ce_d_t", "jae", [2]),
        S("c_u_t", "x7", discr="jc"), S("char", "jc"),
        S("c_u_t", "x8", discr="jd"), S("double", "jd"),
        S("c_u_t", "x9", discr="jsh"), S("c_ush_t", "jsh"),
        S("c_u_t", "x10", discr="jas"), A("string_t", "jas", [2]),
        S("c_u_t", "x11", discr="ja22"), A("int16_t", "ja22", [2, 2]),
        S("c_u_t", "x12", discr="jape"), A("ce_d_t *", "jape", [2]),
        S("c_u_t", "x13", discr="jpps"), P("string_t", "jpps", depth=2),
        S("c_u_t", "x14", discr="jpca"), P("ca5_t", "jpca"),
    ])
    s.struct("c_uov_t", [
        S("c_u_t", "x1", discr="oi", overrides=[(0, "uc"), (5, "ub"), (-1, "ua")]), S("int8_t", "oi"),
        S("c_u_t", "x2", discr="oe", overrides=[("CD_A", "ub"), ("CD_S", "uc")]), S("ce_d_t", "oe"),
        S("c_u_t", "x3", discr="ob", overrides=[(0, "ub"), (1, "ua")]), S("bool", "ob"),
        S("c_u_t", "x4", discr="obf", overrides=[(2, "ua"), (1, "uc")]), B("uint16_t", "obf", 2),
        S("c_u_t", "x5", discr="opi", overrides=[(2, "ua"), (1, "uc")]), P("int", "opi"),
        P("c_u_t", "x6", discr="oi", overrides=[(1, "uc"), (2, "ub")]),
        A("c_u_t", "x7", [2], discr="oi", overrides=[(1, "uc"), (2, "ub")]),
    ])
    s.struct("c_anon_t", [
        S("int", "pre"),
        s.anon([S("int", "na"), S("float", "nb", basic_form=True), S("string_t", "nc")], discr="nd"), S("uint8_t", "nd"),
        s.anon([S("c_us_t", "oa"), s.anon([S("int16_t", "ob1"), S("string_t", "ob2")], discr="oin"), P("int", "oc")], discr="od"), S("ce_plain_t", "od"), S("bool", "oin"),
        s.anon([S("double", "pa"), A("int", "pb", [2])], discr="pd_", name="named"), S("string_t", "pd_"),
        s.anon([S("int", "qa"), S("char", "qb")]),
        S("uint8_t", "mid"), s.anon([B("uint16_t", "ra", 3), B("ce_mask_t", "rb", 8), B("int64_t", "rc", 33), S("char", "rd")], discr="rdi"), B("unsigned", "rdi", 2), B("uint8_t", "rend", 5),
        s.anon([s.anon([B("int", "sa", 11), B("bool", "sb", 1)], discr="sdi"), B("int8_t", "sc", 7), S("double", "se")], discr="sd2", name="inner"), S("bool", "sdi"), S("uint8_t", "sd2"),
    ])
    s.struct("c_uptr_t", [P("c_u_t", "pu", discr="dd"), A("c_u_t", "au", [2], discr="dd"), A("c_u_t *", "apu", [2], discr="dd"), S("ce_d_t", "dd"),
                          P("c_u2_t", "ru", discr="dd2", size="run"), S("string_t", "dd2"), S("ssize_t", "run")])
    # discriminator in an enclosing structure
    s.struct("c_uin_t", [S("c_u_t", "x", discr="up"), S("int", "z")])
    s.struct("c_umid_t", [S("c_uin_t", "in"), P("c_uin_t", "pin"), A("c_uin_t", "ain", [2])])
    s.struct("c_uout_t", [S("int", "up"), S("c_umid_t", "mid"), P("c_umid_t", "pmid"), P("c_umid_t", "rmid", size="rn"), S("int", "rn")])
    s.struct("c_ushadow_t", [S("ce_d_t", "up"), S("c_uin_t", "in"), S("c_uout_t", "out")])
    s.struct("c_tp_t", [s.tptr("tp", "type"), S("string_t", "type"), S("int", "after")])
    s.struct("c_empty_t", [])
    s.struct("c_odd_t", [S("c_empty_t", "e"), A("int", "z0", [0]), s.void("int", "hidden"), s.void("double", "hidden2", "[2]"), S("int", "x"), S("bool", "yes")])
    # structures without serializable members, pointed to within others
    s.struct("c_lock_t", [s.void("int", "owner")])
    s.struct("c_held_t", [S("c_lock_t", "lock"), S("int", "x"), P("c_lock_t", "held"), P("c_held_t", "next"), A("c_lock_t", "many", [2]), P("c_lock_t", "waits"), P("c_held_t", "rel", size="rn"), S("uint8_t", "rn"), S("string_t", "last")])
    s.struct("c_pack_t", [S("char", "c"), S("int64_t", "l"), S("long double", "d"), P("int", "p"), S("string_t", "s"), S("c_us_t", "in"), S("double", "dd")], attrs="__attribute__ ((packed))", meta="packed")
    s.struct("c_mix_t", [S("c_scalars_t", "sc"), P("c_strings_t", "st"), P("c_uni_t", "un"), P("c_dyn_t", "dy"), P("c_mix_t", "next"), S("c_limited_t", "li"), P("c_arrays_t", "ar"),
                         P("c_anon_t", "an"), P("c_pack_t", "pk")])
    s.struct("c_misc_t", [S("int", "x"), s.chararray("nm", 12), P("c_misc_t", "list", size="n"), S("int", "n"), S("ce_mask_t", "m"), P("ce_mask_t", "pm", size="pmn"), s.void("ssize_t", "pmn")])
    s.roots = [c for c in s.compounds if c not in ("c_peer_t", "c_us_t")] + ["int", "string_t", "double", "uint64_t", "ce_plain_t", "ce_mask_t", "ca16_t", "bool", "char", "long double", "complex float", "mr_int128_t",
      "int8_t", "uint8_t", "int16_t", "uint16_t", "uint32_t", "int64_t", "mr_uint128_t", "float", "complex double", "complex long double",
      "ce_packed_t", "ce_signed_t", "ce_mask64_t", "ce_smask_t", "ce_16_t", "ce_64_t", "ce_u64_t"]
    s.roots = [r for r in s.roots if r not in ("c_u_t", "c_u2_t")]
    return s

# ------------------------------------------------------------------ random schemas
def rand_schema(seed, n):
    rnd = random.Random("metaresc-%s-%s" % (seed, n))
    p = "r%d" % n
    s = Schema(p)
    ints = list(INTS)
    def enum(i, branches=None):
        packed = rnd.random() < .5
        style = rnd.choice(["plain", "mask", "signed", "wide", "sparse"]) if branches is None else rnd.choice(["plain", "sparse", "signed"])
        name = "%s_e%d_t" % (p, i)
        k = rnd.randint(1, 9)
        vals = []
        if branches is not None:
            k = max(k, 2)
        if style == "plain":
            vs = [None] * k
        elif style == "mask":
            vs = ([0] if rnd.random() < .5 else []) + sorted(1 << b for b in rnd.sample(range(rnd.choice([7, 8, 15, 16, 31, 32, 63])), min(k, 7)))
        elif style == "signed":
            vs = sorted(rnd.sample(range(-120, 120), k))
            vs[0] = -abs(vs[0]) - 1
        elif style == "wide":
            w = rnd.choice([32, 63]); vs = sorted(set(rnd.getrandbits(w) for _ in range(k)))
        else:
            vs = sorted(rnd.sample(range(0, 1000), k))
        vs2 = []
        for v in vs:
            if v not in vs2 or v is None:
                vs2.append(v)
        if rnd.random() < .3 and None not in vs2:
            rnd.shuffle(vs2)
        for j, v in enumerate(vs2):
            m = None
            if branches is not None:
                m = rnd.choice(branches + [None, "zzz"]) if rnd.random() < .9 else None
            elif rnd.random() < .2:
                m = "text %d" % j
            vals.append(("%s_E%d_%d" % (p.upper(), i, j), v, m))
        return s.enum(name, vals, packed)
    enums = [enum(i) for i in range(rnd.randint(2, 4))]
    chararrs = [s.chararr("%s_ca%d_t" % (p, i), rnd.choice([1, 2, 3, 5, 8, 17, 40])) for i in range(2)]
    structs, unions = [], []
    cnt = rnd.randint(7, 11)
    allnames = ["%s_s%d_t" % (p, i) for i in range(cnt)]
    ne = [100]
    wt = {}         # cells of a type: nested arrays would make huge objects
    acc = [0]
    def fits(ct, n):
        w = wt.get(ct, 1) * n
        if w > 60 or acc[0] + w > 160:
            return False
        acc[0] += w
        return True
    def scalar_type():
        x = rnd.random()
        if x < .45: return rnd.choice(ints)
        if x < .55: return rnd.choice(list(FLOATS))
        if x < .65: return rnd.choice(enums)
        if x < .72: return "bool"
        if x < .78: return "char"
        if x < .92: return rnd.choice(["string_t", "char *"])
        return rnd.choice(chararrs)
    def fix(x):
        return "string_t" if x == "char *" else x
    def fields(me, k, in_union=False):
        fs = []
        u = [0]
        def nm(pre="f"):
            u[0] += 1
            return "%s%d" % (pre, u[0])
        def zero_sized(fs):     # members of no size in front of a size member given by its offset share the offset
            if rnd.random() < .4:
                fs.append(s.array("uint8_t", nm(), [0]))
        while len(fs) < k:
            x = rnd.random()
            if x < .30:
                fs.append(s.scalar(scalar_type(), nm(), meta="m" if rnd.random() < .1 else ""))
            elif x < .37 and not in_union:
                ct = rnd.choice([t for t in ints if INTS[t][1] < 128] + ["bool"] + enums)
                w = 1 if ct == "bool" else s.enums[ct].width()[0] if ct in s.enums else INTS[ct][1]
                if ct in s.enums:
                    vs = [v for _, v, _ in s.enums[ct].resolved()]
                    bits = w if rnd.random() < .6 else max(max(v.bit_length() for v in vs) + (1 if min(vs) < 0 else 0), 1)
                else:
                    bits = rnd.randint(1, w)
                fs.append(s.bitfield(ct, nm(), bits))
            elif x < .47:
                ct = scalar_type() if rnd.random() < .6 or not structs else rnd.choice(structs)
                dims = [rnd.choice([1, 2, 2, 3, 4]) for _ in range(rnd.choice([1, 1, 1, 2, 2, 3, 4]))]
                if rnd.random() < .03: dims[rnd.randrange(len(dims))] = 0
                n = 1
                for d in dims: n *= d
                if not fits(ct, n): continue
                fs.append(s.array(ct, nm(), dims))
            elif x < .50 and not in_union:
                ct = fix(scalar_type()) if rnd.random() < .6 or not structs else rnd.choice(structs)
                n = rnd.randint(1, 5)
                if not fits(ct, n): continue
                z = nm("z")
                by = rnd.choice(["string", "offset"])
                fs.append(s.array(ct, nm(), [n], size=z, by=by))
                if by == "offset": zero_sized(fs)
                fs.append(s.void("ssize_t", z) if rnd.random() < .3 else s.scalar(rnd.choice(["int", "size_t", "uint16_t", "ssize_t"]), z))
            elif x < .60:
                t = rnd.choice(allnames)
                if t in s.compounds or t == me:
                    fs.append(s.ptr(t, nm()))
                else:
                    s.forward.add(t)
                    fs.append(s.ptr(t, nm(), struct_form=True))
            elif x < .67:
                ct = fix(scalar_type())
                while ct == "char": ct = fix(scalar_type())
                fs.append(s.ptr(ct, nm(), depth=1 if rnd.random() < .8 else 2))
            elif x < .77 and not in_union:
                ct = fix(scalar_type()) if rnd.random() < .5 or not structs else rnd.choice(structs + [me])
                z = nm("z")
                szt = rnd.choice(["int", "size_t", "ssize_t", "uint16_t", "int64_t", "void", "bf"])
                by = "string" if szt == "bf" else rnd.choice(["string", "offset"])
                fs.append(s.ptr(ct, nm(), size=z, by=by))
                if by == "offset": zero_sized(fs)
                if szt == "void": fs.append(s.void("ssize_t", z))
                elif szt == "bf": fs.append(s.bitfield("uint16_t", z, rnd.randint(9, 16)))
                else: fs.append(s.scalar(szt, z))
            elif x < .87 and structs:
                ct = rnd.choice(structs)
                if not fits(ct, 1): continue
                fs.append(s.scalar(ct, nm()))
            elif x < .95 and unions and not in_union:
                ut = rnd.choice(unions)
                if not fits(ut, 3): continue
                branches = [f.name for f in s.compounds[ut].fields]
                d = "%s_d%d" % (p, s.uniq)
                s.uniq += 1
                form = rnd.choice(["plain", "plain", "ptr", "array", "anon"])
                dk = rnd.choice(["int", "enum", "enum", "string", "ca", "bool", "bf", "pint", "none", "up"])
                ov = ()
                if dk in ("int", "enum", "bool", "bf") and rnd.random() < .3:
                    ov = [(v, rnd.choice(branches)) for v in rnd.sample(range(0, 2 if dk == "bool" else 4), 2)]
                if dk == "up":
                    ov = ()
                    d = rnd.choice(sorted(s.discr_hint)) if s.discr_hint else d
                    if not s.discr_hint: dk = "int"
                if dk == "none":
                    d = None
                    ov = ()
                if form == "plain": fs.append(s.scalar(ut, nm(), discr=d, overrides=ov))
                elif form == "ptr": fs.append(s.ptr(ut, nm(), discr=d, overrides=ov))
                elif form == "array": fs.append(s.array(ut, nm(), [rnd.randint(1, 3)], discr=d, overrides=ov))
                else:
                    br = []
                    for _ in range(rnd.randint(2, 4)):
                        bx = rnd.random()
                        if bx < .35:
                            ct = rnd.choice([t for t in ints if INTS[t][1] < 128] + ["bool"])
                            br.append(s.bitfield(ct, nm("g"), rnd.randint(1, 1 if ct == "bool" else INTS[ct][1])))
                        elif bx < .45: br.append(s.array(rnd.choice(["int", "uint8_t", "double", "string_t"]), nm("g"), [rnd.randint(1, 3)]))
                        elif bx < .55: br.append(s.ptr(rnd.choice(["int", "double", "uint64_t"]), nm("g")))
                        else: br.append(s.scalar(scalar_type(), nm("g")))
                    branches = [b.name for b in br]
                    if ov: ov = [(v, rnd.choice(branches)) for v, _ in ov]
                    fs.append(s.anon(br, discr=d, overrides=ov, name=nm("q") if rnd.random() < .3 else ""))
                if d is not None: s.discr_hint.add(d)
                if dk == "int": fs.append(s.scalar(rnd.choice(["int", "uint8_t", "int16_t", "uint64_t"]), d))
                elif dk == "enum":
                    ne[0] += 1
                    fs.append(s.scalar(enum(ne[0], branches), d))
                elif dk == "string": fs.append(s.scalar("string_t", d))
                elif dk == "ca": fs.append(s.scalar(rnd.choice(chararrs), d))
                elif dk == "bool": fs.append(s.scalar("bool", d))
                elif dk == "bf": fs.append(s.bitfield("uint32_t", d, 3))
                elif dk == "pint": fs.append(s.ptr("int", d))
            elif x < .97 and not in_union:
                fs.append(s.void(rnd.choice(["int", "double", "uint8_t"]), nm("v")))
            elif x < .985 and not in_union:
                fs.append(s.voidptr(nm()))
            else:
                fs.append(s.func(nm(), "void", "int"))
        return fs
    s.discr_hint = set()
    for i, me in enumerate(allnames):
        if rnd.random() < .5:
            un = "%s_u%d_t" % (p, i)
            acc[0] = 0
            fs = fields(un, rnd.randint(2, 4), in_union=True)
            wt[un] = acc[0] + len(fs)
            s.union(un, fs)
            unions.append(un)
        attrs = "__attribute__ ((packed))" if rnd.random() < .12 else ""
        acc[0] = 0
        fs = fields(me, rnd.randint(2, 7))
        wt[me] = acc[0] + len(fs)
        s.struct(me, fs, attrs=attrs)
        structs.append(me)
    s.roots = list(structs)
    return s

def main():
    if sys.argv[1] == "core":
        s, out = core(), sys.argv[2]
    else:
        s, out = rand_schema(int(sys.argv[2]), int(sys.argv[3])), sys.argv[4]
    with open(out, "w") as f:
        f.write(s.emit())
    rest = sys.argv[3:] if sys.argv[1] == "core" else sys.argv[5:]
    if rest: # declarations alone
        with open(rest[0], "w") as f:
            f.write(s.declarations())

if __name__ == "__main__":
    main()
