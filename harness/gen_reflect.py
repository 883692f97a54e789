"""Generator of type declarations for the check of reflection (P16): every form of the macro language, and beside each declaration
a table of facts which the C compiler computes itself (sizeof, offsetof, enumerators).

usage: gen_reflect.py SEED N OUT.c [OUT2.c]     the second file declares the same types once more, as another user of a shared header does
"""
import random, sys

INTS = [("int8_t", 8, 1), ("uint8_t", 8, 0), ("int16_t", 16, 1), ("uint16_t", 16, 0), ("int32_t", 32, 1), ("uint32_t", 32, 0),
        ("int64_t", 64, 1), ("uint64_t", 64, 0), ("signed char", 8, 1), ("unsigned char", 8, 0), ("short", 16, 1), ("short int", 16, 1),
        ("unsigned short", 16, 0), ("short unsigned int", 16, 0), ("int", 32, 1), ("signed", 32, 1), ("signed int", 32, 1), ("unsigned", 32, 0), ("unsigned int", 32, 0),
        ("long", 64, 1), ("long int", 64, 1), ("unsigned long", 64, 0), ("unsigned long int", 64, 0), ("long unsigned int", 64, 0), ("long long", 64, 1),
        ("unsigned long long", 64, 0), ("long long unsigned int", 64, 0), ("size_t", 64, 0), ("ssize_t", 64, 1), ("intptr_t", 64, 1), ("uintptr_t", 64, 0)]
WIDE = [("mr_int128_t", 128, 1), ("mr_uint128_t", 128, 0), ("mr_intmax_t", 128, 1), ("mr_uintmax_t", 128, 0)]
FLOATS = [("float", "MR_TYPE_FLOAT"), ("double", "MR_TYPE_DOUBLE"), ("long double", "MR_TYPE_LONG_DOUBLE"), ("long_double_t", "MR_TYPE_LONG_DOUBLE"),
          ("complex float", "MR_TYPE_COMPLEX_FLOAT"), ("complex double", "MR_TYPE_COMPLEX_DOUBLE"), ("complex long double", "MR_TYPE_COMPLEX_LONG_DOUBLE"),
          ("complex_float_t", "MR_TYPE_COMPLEX_FLOAT")]
# types whose fields may be declared without parentheses
BUILTIN = {"int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "short", "short int", "unsigned short", "int", "signed", "signed int", "unsigned",
           "unsigned int", "long", "long int", "unsigned long", "unsigned long int", "long long", "unsigned long long", "long unsigned int", "long long unsigned int", "size_t", "ssize_t",
           "float", "double", "long double", "complex float", "complex double", "long_double_t", "char", "bool", "string_t", "signed char", "unsigned char"}
QUALS = ["", "", "", "", "const ", "volatile ", "const volatile ", "__const ", "__volatile__ "]

class G:
    def __init__(self, seed, n):
        self.r = random.Random("reflect-%s-%s" % (seed, n))
        self.p = "q%d" % n
        self.n = n
        self.uid = 0
        self.pre, self.proto, self.desc, self.tab = [], [], [], []
        self.rows = []
        self.structs, self.unions, self.enums, self.cas, self.funcs, self.foreign = [], [], {}, [], [], []
        self.externals = []
    def id(self):
        self.uid += 1
        return self.uid
    def ident(self):
        """a name of a field"""
        r = self.r
        k = self.id()
        return r.choice(["f%d", "a%d", "x_%d", "_%d", "Name%d", "const%d", "struct_%d", "e%d", "type%d", "mr_size%d", "l%d_" + "o" * 60, "F%d_t"]) % k
    def typename(self, suf):
        r = self.r
        k = "%s_%d" % (self.p, self.id())
        return r.choice(["%s_" + suf, "%s_" + suf, "struct_%s", "%s_const", "const%s_t", "unionized_%s", "enum%s", "restrict_%s_t", "%s_volatile_t", "T%s", "struct%s_struct"]) % k
    def q(self, s):
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    def meta(self, pr=.25):
        """(source, text)"""
        r = self.r
        if r.random() >= pr:
            return "", ""
        a = r.choice(["meta", "a longer description of something", "t, with (commas) and \"quotes\"", "x", "100%", "back\\slash"])
        if r.random() < .2:
            b = r.choice(["second", "!"])
            return self.q(a) + " " + self.q(b), a + b
        return self.q(a), a
    def tail(self, suffix=None, allow_res=True):
        """suffix, meta, resource: (text after the name, row entries)"""
        r = self.r
        src, txt = self.meta()
        out = ""
        rows = ['.meta = %s' % self.q(txt)]
        res = r.random() < .15 and allow_res
        if suffix is not None:
            out += ", " + suffix
        if src or res:
            if suffix is None:
                out += ", "
            out += ", " + src
        if res:
            kind = r.choice(["str", "int", "size", "struct"])
            if kind == "str":
                s = r.choice(["resource", "", "other"])
                out += ', { %s }, "string"' % self.q(s)
                rows.append('.res_type = "string", .res_str = %s, .res_size = -1' % self.q(s))
            elif kind == "int":
                g = "%s_res%d" % (self.p, self.id())
                self.pre.append("int %s;" % g)
                out += ", { &%s }, \"int\"" % g
                rows.append('.res_type = "int", .res = &%s, .res_size = sizeof (int)' % g)
            elif kind == "size":
                g = "%s_res%d" % (self.p, self.id())
                k = r.randint(1, 4)
                self.pre.append("double %s[%d];" % (g, k))
                out += ", { %s }, \"double\", %s" % (g, "sizeof (%s)" % g if r.random() < .5 else "%d * sizeof (double)" % k)
                rows.append('.res_type = "double", .res = %s, .res_size = sizeof (%s)' % (g, g))
            else:
                if not self.structs:
                    return self.tail(suffix, False)
                t = r.choice(self.structs)
                g = "%s_res%d" % (self.p, self.id())
                self.pre.append("char %s[1 << 14];" % g)
                out += ", { %s }, \"%s\"" % (g, t)
                rows.append('.res_type = "%s", .res = %s, .res_size = sizeof (%s)' % (t, g, t))
        return out, rows
    # scalar C types: (spelling, mr_type, name of descriptor or None)
    def scalar(self, self_type=None):
        r = self.r
        x = r.random()
        if x < .45:
            t, b, s = r.choice(INTS if r.random() < .93 else WIDE)
            return t, "MR_TYPE_%sINT%d" % ("" if s else "U", b), None
        if x < .55:
            t, m = r.choice(FLOATS)
            return t, m, None
        if x < .6: return "bool", "MR_TYPE_BOOL", None
        if x < .65: return "char", "MR_TYPE_CHAR", None
        if x < .72: return r.choice(["string_t", "char *", "char*", "const char *", "char const *", "volatile char *"]), "MR_TYPE_STRING", None
        if x < .76 and self.cas: t = r.choice(self.cas); return t, "MR_TYPE_CHAR_ARRAY", t
        if x < .84 and self.enums: t = r.choice(list(self.enums)); return r.choice(["", "", "enum "]) + t, "MR_TYPE_ENUM", t
        if x < .93 and self.structs: t = r.choice(self.structs); return r.choice(["", "", "struct "]) + t, "MR_TYPE_STRUCT", t
        if x < .97 and self.unions: t = r.choice(self.unions); return r.choice(["", "", "union "]) + t, "MR_TYPE_UNION", t
        if x < .99 and self.funcs: t = r.choice(self.funcs); return t, "MR_TYPE_FUNC_TYPE", t
        return "int", "MR_TYPE_INT32", None
    def pointer(self, me):
        """(spelling, aux, descriptor)"""
        r = self.r
        x = r.random()
        if x < .1:
            return r.choice(["void *", "void*", "const void *", "void * const", "volatile void *"]), "MR_TYPE_VOID", None
        if x < .25 and me:
            return r.choice(["%s *", "%s*", "struct %s *", "const %s *", "volatile struct %s *", "%s * const"] if me[1] == "struct" else ["union %s *"]) % me[0], "MR_TYPE_STRUCT" if me[1] == "struct" else "MR_TYPE_UNION", me[0]
        if x < .3 and self.foreign:
            return r.choice(["struct %s *", "%s *"]) % r.choice(self.foreign), "MR_TYPE_VOID", None
        t, m, d = self.scalar()
        if m == "MR_TYPE_FUNC_TYPE":
            return "int *", "MR_TYPE_INT32", None
        if m == "MR_TYPE_CHAR":
            return "signed char *", "MR_TYPE_INT8", None
        if m == "MR_TYPE_STRING":
            return r.choice(["char **", "string_t *", "char * *", "const char **"]), m, None
        if r.random() < .15:
            if m in ("MR_TYPE_CHAR_ARRAY",) or d is None and "double" in t and "complex" in t:
                pass
            else:
                return t + r.choice([" **", "**", " * *"]), "MR_TYPE_POINTER", d or ""
        ql = r.choice(QUALS)
        return r.choice([ql + "%s *", "%s " + ql + "*", "%s*", "%s *", "%s * " + ql]) % t, m, d
    def field(self, cname, cexpr, me, in_union=False, depth=0, kinds=None):
        """one field: (declaration, [row], plain C declaration or None)"""
        r = self.r
        x = r.random()
        nm = self.ident()
        # T is used in offsetof and sizeof
        off = ".offset = offsetof (%s, %s)" % (cexpr, nm)
        siz = ".size = sizeof (((%s*)0)->%s)" % (cexpr, nm)
        base = ['.name = "%s"' % nm]
        if x < .33:
            t, m, d = self.scalar()
            form = r.random()
            ql = r.choice(QUALS)
            if t in BUILTIN and form < .3:
                rows = base + [off, siz, ".mr_type = %s, .aux = -1" % m, '.meta = ""']
                return "%s%s %s" % (ql, t, nm), rows
            tl, rr = self.tail()
            ty = (ql + t) if form < .8 else (t + " " + ql).strip()
            if r.random() < .06: ty = "  ".join(ty.split(" "))
            word = r.choice(["", "", "", "AUTO "])
            return "%s(%s, %s%s)" % (word, ty, nm, tl), base + [off, siz, ".mr_type = %s, .aux = -1" % m] + ([".tdp = \"%s\"" % d] if d else [".tdp_size = sizeof (%s)" % t]) + rr
        if x < .46:
            t, m, d = self.pointer(me)
            tl, rr = self.tail()
            return "(%s, %s%s)" % (t, nm, tl), base + [off, siz, ".mr_type = MR_TYPE_POINTER, .aux = %s" % m] + ([".tdp = \"%s\"" % d] if d else []) + rr
        if x < .62:
            nd = r.choice([1, 1, 1, 2, 2, 3, 4, 5])
            dims = [r.choice([1, 2, 3, 4, 7]) for _ in range(nd)]
            if r.random() < .05 and nd == 1: dims = [0]
            sfx = "".join(r.choice(["[%d]", "[ %d ]", "[%d + 0]"]) % d for d in dims)
            # dimensions behind the 4-th are folded into it
            ed = dims[:4]
            for d in dims[4:]: ed[3] *= d
            if r.random() < .3:
                t, m, d = self.pointer(me)
                m2 = "MR_TYPE_POINTER"
                if t.rstrip().endswith("const"): t, m, d = "int *", "MR_TYPE_INT32", None
            else:
                t, m2, d = self.scalar()
            if m2 == "MR_TYPE_CHAR_ARRAY":  t, m2, d = "int", "MR_TYPE_INT32", None
            tl, rr = self.tail(sfx)
            word = r.choice(["", "", "", "ARRAY "])
            return "%s(%s, %s%s)" % (word, t, nm, tl), base + [off, siz, ".mr_type = MR_TYPE_ARRAY, .aux = %s" % m2, ".nd = %d, .dim = { %s }" % (len(ed), ", ".join(map(str, ed)))] + ([".tdp = \"%s\"" % d] if d else []) + rr
        if x < .76 and (depth == 0 or cname[1]):
            return self.bitfield(nm, base, cexpr)
        if x < .80:
            ret = r.choice(["int", "void", "char *", "double", "void *"])
            al = [r.choice(["int", "char *", "double", "void *", "const char *", "uint8_t", "long long"]) for _ in range(r.randint(1, 4))]
            if r.random() < .2: al = ["void"]
            tl, rr = self.tail("(" + ", ".join(al) + ")")
            word = r.choice(["", "", "FUNC "])
            mm = {"int": "INT32", "void": "VOID", "char *": "STRING", "double": "DOUBLE", "void *": "POINTER", "const char *": "STRING", "uint8_t": "UINT8", "long long": "INT64"}
            args = "(const int[]){ " + ", ".join("MR_TYPE_" + mm[a] for a in [ret] + al) + " }"
            return "%s(%s, %s%s)" % (word, ret, nm, tl), base + [off, siz, ".mr_type = MR_TYPE_FUNC, .aux = -1", ".args = %s, .nargs = %d" % (args, 1 + len(al))] + rr
        if x < .86:
            t, m, d = self.scalar()
            k = r.random()
            if k < .5:
                tl, rr = self.tail(allow_res=False)
                return "VOID (%s, %s%s)" % (t, nm, tl), base + [off, siz, ".mr_type = MR_TYPE_VOID, .aux = -1", ".flags = RF_VOID"] + rr
            if k < .7:
                tl, rr = self.tail("[%d]" % r.randint(1, 4), allow_res=False)
                return "VOID (%s, %s%s)" % (t, nm, tl), base + [off, ".size = 0, .mr_type = MR_TYPE_VOID, .aux = -1", ".flags = RF_VOID | RF_NO_SIZE"] + rr
            if k < .85:
                tl, rr = self.tail("(int)", allow_res=False)
                return "VOID (void, %s%s)" % (nm, tl), base + [off, siz, ".mr_type = MR_TYPE_VOID, .aux = -1", ".flags = RF_VOID"] + rr
            if in_union or depth:
                return self.field(cname, cexpr, me, in_union, depth)
            tl, rr = self.tail(": %d" % r.randint(1, 8), allow_res=False)
            return "VOID (unsigned, %s%s)" % (nm, tl), base + [".mr_type = MR_TYPE_VOID, .aux = -1", ".flags = RF_VOID | RF_NO_SIZE | RF_NO_OFFSET"] + rr
        if x < .90 and self.foreign:
            t = "struct " + r.choice(self.foreign)
            tl, rr = self.tail()
            return "(%s, %s%s)" % (t, nm, tl), base + [off, siz, ".mr_type = MR_TYPE_VOID, .aux = -1"] + rr
        if depth < 3 and cname[1]:
            return self.anon(cname, cexpr, me, depth)
        return self.field(cname, cexpr, me, in_union, depth)
    def bitfield(self, nm, base, cexpr):
        r = self.r
        k = r.random()
        d = None
        if k < .15: t, w, m = "bool", 1, "MR_TYPE_BOOL"
        elif k < .35 and self.enums:
            d = r.choice(list(self.enums)); w = self.enums[d]; t, m = r.choice(["", "enum "]) + d, "MR_TYPE_ENUM"
        else:
            t, w, s = r.choice(INTS); m = "MR_TYPE_%sINT%d" % ("" if s else "U", w)
        b = w if r.random() < .2 else r.randint(1, w)
        if m == "MR_TYPE_ENUM": b = w if r.random() < .4 else r.randint(max(1, w // 2), w)
        tl, rr = self.tail(r.choice([": %d", ":%d", ": %d + 0"]) % b)
        fn = "%s_set%d" % (self.p, self.id())
        self.tab.append("static void %s (void * p, uint64_t x) { ((%s *)p)->%s = x; }" % (fn, cexpr, nm))
        word = r.choice(["", "", "", "BITFIELD "])
        return "%s(%s, %s%s)" % (word, t, nm, tl), base + [".size = sizeof (%s), .mr_type = MR_TYPE_BITFIELD, .aux = %s, .bits = %d, .set = %s" % (t, m, b, fn)] + ([".tdp = \"%s\"" % d] if d else []) + rr
    def anon(self, cname, cexpr, me, depth):
        r = self.r
        named = r.random() < .35
        nm = self.ident() if named else ""
        k = r.randint(1, 4)
        fs = [self.field(cname, cexpr, me, True, depth + 1) for _ in range(k)]
        attrs = ", __attribute__ ((packed))" if r.random() < .15 else ""
        src, txt = self.meta(.5)
        rows = ['.name = "%s"' % nm, ".mr_type = MR_TYPE_%sANON_UNION, .aux = -1" % ("NAMED_" if named else ""), ".meta = %s" % self.q(txt), ".flags = %s" % ("RF_NAMED" if named else "RF_ANON")]
        arr = "%s_anon%d" % (self.p, self.id())
        self.tab.append("static const rf_t %s[] = {\n%s\n};" % (arr, "\n".join("  { " + ", ".join(f[1]) + " }," for f in fs)))
        rows.append(".sub = %s, .nsub = %d" % (arr, k))
        decl = ", ".join(["ANON_UNION (%s%s)" % (nm, attrs)] + [f[0] for f in fs] + ["END_ANON_UNION (%s)" % src])
        return decl, rows
    def attributes(self, choices):
        r = self.r
        a = r.choice(choices)
        src, txt = self.meta(.3)
        if not a and not src:
            return "", ""
        return "ATTRIBUTES (%s%s)" % (a, ", " + src if src else ""), txt
    def place(self, items, attr):
        """ATTRIBUTES may be anywhere in the list"""
        if attr:
            items.insert(0 if self.r.random() < .6 else self.r.randrange(len(items) + 1), attr)
        return items
    def compound(self, big=False):
        r = self.r
        kind = "struct" if r.random() < .75 else "union"
        nm = self.typename("t")
        k = r.randint(100, 200) if big else r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])
        if kind == "union": k = max(1, min(k, 6))
        fs = []
        while len(fs) < k:
            fs.append(self.field((nm, True), nm, (nm, kind), kind == "union") if not big else self.simple(nm))
        attr, meta = self.attributes(["", "", "", "__attribute__ ((packed))", "__attribute__ ((aligned (16)))"])
        items = [nm] + self.place([f[0] for f in fs], attr)
        trail = "," if r.random() < .3 else ""
        decl = "TYPEDEF_%s (%s%s)" % (kind.upper(), ",\n\t".join(items), trail)
        self.proto.append(decl)
        self.desc.append(decl)
        self.rows.append((nm, "MR_TYPE_" + kind.upper(), "sizeof (%s)" % nm, meta, fs, [], None, 0))
        # arrays of objects without size are not C
        if any(".dim = { 0 }" not in ", ".join(f[1]) and ".sub" not in ", ".join(f[1]) for f in fs):
            (self.structs if kind == "struct" else self.unions).append(nm)
    def simple(self, cexpr):
        nm = self.ident()
        t, b, s = self.r.choice(INTS)
        return "(%s, %s)" % (t, nm), ['.name = "%s"' % nm, ".offset = offsetof (%s, %s), .size = sizeof (%s)" % (cexpr, nm, t), ".mr_type = MR_TYPE_%sINT%d, .aux = -1" % ("" if s else "U", b), '.meta = ""']
    def external(self):
        """a type of another library, described afterwards: any order, some of the fields, or only their names"""
        r = self.r
        nm = self.typename("x")
        kind = r.choice(["struct", "struct", "struct", "union"])
        notd = kind == "struct" and r.random() < .3       # struct without a typedef
        cexpr = (kind + " " + nm) if notd else nm
        cf, fs = [], []
        for _ in range(r.randint(1, 9)):
            f = self.ident()
            off = ".offset = offsetof (%s, %s), .size = sizeof (((%s*)0)->%s)" % (cexpr, f, cexpr, f)
            k = r.random()
            base = ['.name = "%s"' % f]
            if k < .25:
                t, b, s = r.choice(INTS)
                m = "MR_TYPE_%sINT%d" % ("" if s else "U", b)
                cf.append("%s %s;" % (t, f))
                fs.append((r.choice([f, "(%s, %s)" % (t, f), "(, %s)" % f]), base + [off, ".mr_type = %s, .aux = -1" % m, '.meta = ""']))
            elif k < .35:
                t, m = r.choice(FLOATS)
                cf.append("%s %s;" % (t, f))
                fs.append((r.choice([f, "(%s, %s)" % (t, f)]), base + [off, ".mr_type = %s, .aux = -1" % m, '.meta = ""']))
            elif k < .45 and self.structs:
                t = r.choice(self.structs)
                cf.append("%s %s;" % (t, f))
                fs.append(("(%s, %s)" % (t, f), base + [off, '.mr_type = MR_TYPE_STRUCT, .aux = -1, .tdp = "%s"' % t, '.meta = ""']))
            elif k < .6:
                n = r.randint(1, 5)
                t, b, s = r.choice(INTS)
                cf.append("%s %s[%d];" % (t, f, n))
                fs.append(("(%s, %s, [%d])" % (t, f, n) if r.random() < .7 else "(%s, %s, [])" % (t, f), base + [off, ".mr_type = MR_TYPE_ARRAY, .aux = MR_TYPE_%sINT%d, .nd = 1, .dim = { %d }" % ("" if s else "U", b, n), '.meta = ""']))
            elif k < .75:
                t, b, s = r.choice(INTS)
                w = r.randint(1, b)
                fn = "%s_set%d" % (self.p, self.id())
                self.tab.append("static void %s (void * p, uint64_t x) { ((%s *)p)->%s = x; }" % (fn, cexpr, f))
                cf.append("%s %s : %d;" % (t, f, w))
                fs.append(("(%s, %s, : %d)" % (t, f, w), base + [".size = sizeof (%s), .mr_type = MR_TYPE_BITFIELD, .aux = MR_TYPE_%sINT%d, .bits = %d, .set = %s" % (t, "" if s else "U", b, w, fn), '.meta = ""']))
            elif k < .85:
                cf.append("char * %s;" % f)
                fs.append((r.choice([f, "(char *, %s)" % f]), base + [off, ".mr_type = MR_TYPE_STRING, .aux = -1", '.meta = ""']))
            else:
                cf.append("%s %s * %s;" % (kind, nm, f))
                fs.append(("(%s %s *, %s)" % (kind, nm, f), base + [off, '.mr_type = MR_TYPE_POINTER, .aux = MR_TYPE_%s, .tdp = "%s"' % (kind.upper(), nm), '.meta = ""']))
        order = list(range(len(fs)))
        if kind == "struct":
            if r.random() < .4: order = sorted(r.sample(order, r.randint(1, len(order))))
            decl_order = order[:]
            r.shuffle(decl_order)
        else:
            decl_order = order
        body = "%s %s { %s }" % (kind, nm, " ".join(cf))
        self.pre.append(body + ";" if notd else "typedef %s %s;" % (body, nm))
        self.desc.append("TYPEDEF_%s (%s,\n\t%s)" % (kind.upper(), cexpr, ",\n\t".join(fs[i][0] for i in decl_order)))
        self.rows.append((nm, "MR_TYPE_" + kind.upper(), "sizeof (%s)" % cexpr, "", [fs[i] for i in order], [], None, 0))
        if not notd:
            (self.structs if kind == "struct" else self.unions).append(nm)
    def enum(self):
        r = self.r
        nm = self.typename("e")
        attr, meta = self.attributes(["", "", "__attribute__ ((packed))", "__attribute__ ((packed))", "__attribute__ ((packed, aligned (%d)))" % r.choice([1, 2, 4])])
        packed = "packed" in attr
        k = r.choice([1, 2, 3, 4, 6, 9, 20])
        style = r.choice(["plain", "mask", "signed", "wide", "sparse", "dups", "expr", "neg64"])
        out, vals, nxt = [], [], 0
        for i in range(k):
            e = "%s_E%d" % (self.p.upper() if r.random() < .8 else self.p, self.id())
            rhs = ""
            if style == "mask": v = 1 << min(i, 62) if i or r.random() < .7 else 0; rhs = r.choice(["= %dLL" % v, "= 0x%xLL" % v])
            elif style == "signed": v = r.randint(-120, 120); rhs = "= %d" % v
            elif style == "wide": v = r.getrandbits(r.choice([20, 31, 32, 40, 63])); rhs = "= %dLL" % v
            elif style == "sparse": v = r.randint(0, 60000); rhs = "= %d" % v
            elif style == "dups": v = r.randint(0, 3); rhs = "= %d" % v
            elif style == "neg64": v = r.choice([-1, -(1 << 63), (1 << 63) - 1, -r.getrandbits(40), r.getrandbits(40)]); rhs = "= %dLL" % v if v != -(1 << 63) else "= (-9223372036854775807LL - 1)"
            elif style == "expr":
                v, rhs = nxt, ""
                if out and r.random() < .6:
                    o, ov = r.choice(list(zip([x[0] for x in out], vals)))
                    d = r.randint(0, 9)
                    v, rhs = r.choice([(ov + d, "= %s + %d" % (o, d)), (ov, "= %s" % o), (ord("a") + d, "= 'a' + %d" % d), (3 << d, "= 3 << %d" % d)])
            else:
                v = nxt
                if r.random() < .3: v = nxt + r.randint(0, 5); rhs = "= %d" % v
            nxt = v + 1
            vals.append(v)
            src, txt = self.meta(.2)
            form = e if not rhs and not src and r.random() < .7 else "(%s, %s%s)" % (e, rhs, ", " + src if src else "")
            out.append((e, form, txt))
        lo, hi = min(vals), max(vals)
        if lo < 0 and hi >= 1 << 63: return self.enum()
        sgn = lo < 0
        w = None
        for b in ([8, 16, 32, 64] if packed else [32, 64]):
            if (sgn and -(1 << (b - 1)) <= lo and hi < (1 << (b - 1))) or (not sgn and hi < (1 << b)):
                w = b; break
        items = [nm] + self.place([o[1] for o in out], attr)
        decl = "TYPEDEF_ENUM (%s%s)" % (", ".join(items), "," if r.random() < .3 else "")
        self.proto.append(decl)
        self.desc.append(decl)
        es = []
        for (e, _, txt), v in zip(out, vals):
            fn = "%s_put%d" % (self.p, self.id())
            self.tab.append("static void %s (void * p) { *(%s *)p = %s; }" % (fn, nm, e))
            es.append('{ "%s", (uint64_t)(int64_t)%s, %s, %s }' % (e, e, self.q(txt), fn))
        self.rows.append((nm, "MR_TYPE_ENUM", "sizeof (%s)" % nm, meta, [], es, None, (w // 8, sgn)))
        self.enums[nm] = w
    def functype(self):
        r = self.r
        nm = self.typename("fn")
        mm = {"int": "INT32", "void": "VOID", "char *": "STRING", "double": "DOUBLE", "void *": "POINTER", "const char *": "STRING", "uint8_t": "UINT8", "long long": "INT64"}
        ret = r.choice(["int", "void", "char *"])
        al = [r.choice(["int", "char *", "double", "void *", "uint8_t", "long long"]) for _ in range(r.randint(1, 4))]
        attr, meta = self.attributes([""])
        self.proto.append("TYPEDEF_FUNC (%s, %s, (%s)%s)" % (ret, nm, ", ".join(al), ", " + attr if attr else ""))
        self.desc.append(self.proto[-1])
        self.rows.append((nm, "MR_TYPE_FUNC_TYPE", "sizeof (%s)" % nm, meta, [], [], [ret] + al, 0))
        self.funcs.append(nm)
        self.mm = mm
    def build(self):
        r = self.r
        for i in range(r.randint(1, 2)):
            nm = "%s_foreign%d" % (self.p, i)
            self.pre.append("typedef struct %s { char c; double d; } %s;" % (nm, nm))
            self.foreign.append(nm)
        for i in range(2):
            nm = "%s_ca%d_t" % (self.p, i)
            k = r.randint(1, 40)
            self.pre.append("typedef char %s[%d];" % (nm, k))
            self.desc.append("MR_TYPEDEF_DESC_BI (%s);" % nm)
            self.rows.append((nm, "MR_TYPE_CHAR_ARRAY", "sizeof (%s)" % nm, "", [], [], None, 0))
            self.cas.append(nm)
        for _ in range(2): self.enum()
        self.functype()
        for i in range(r.randint(8, 14)):
            x = r.random()
            if x < .2: self.enum()
            elif x < .25: self.functype()
            else: self.compound(big=(i == 7 and r.random() < .25))
        for _ in range(r.randint(1, 4)): self.external()
    def emit(self, tables=True):
        # declarations of external types refer to generated ones: order of C declarations is that of generation
        o = ["/* generated by gen_reflect.py */", "#include <metaresc.h>", "#include <stdbool.h>", "#include <complex.h>", "#include \"reflect.h\""]
        ext = [p for p in self.pre if not p.startswith("typedef char") and p.startswith(("int ", "double ", "char ")) or "_foreign" in p.split("{")[0] and p.startswith("typedef struct") or p.startswith("typedef char")]
        rest = [p for p in self.pre if p not in ext]
        o += ext if tables else ["extern " + p if p.startswith(("int ", "double ", "char ")) else p for p in ext]
        o += ["#undef MR_MODE", "#define MR_MODE PROTO"] + self.proto + ["#undef MR_MODE"] + rest
        o += ["#define MR_MODE DESC"] + self.desc + ["#undef MR_MODE"]
        if not tables:
            return "\n".join(o) + "\n"
        o += self.tab
        body = []
        for nm, mt, size, meta, fs, es, args, eff in self.rows:
            row = ['"%s", %s, %s, %s' % (nm, mt, size, self.q(meta))]
            if fs:
                o.append("static const rf_t rf_%s[] = {\n%s\n};" % (nm, "\n".join("  { " + ", ".join(f[1]) + " }," for f in fs)))
                row.append(".f = rf_%s, .nf = %d" % (nm, len(fs)))
            if es:
                o.append("static const re_t re_%s[] = { %s };" % (nm, ",\n  ".join(es)))
                row.append(".e = re_%s, .ne = %d, .eff_size = %d, .is_signed = %d" % (nm, len(es), eff[0], eff[1]))
            if args:
                row.append(".args = (const int[]){ %s }, .nargs = %d" % (", ".join("MR_TYPE_" + self.mm[a] for a in args), len(args)))
            body.append("  { " + ", ".join(row) + " },")
        o.append("const rt_t %s_reflect[] = {\n%s\n  { NULL }\n};" % (self.p, "\n".join(body)))
        return "\n".join(o) + "\n"

def main():
    seed, n, out = sys.argv[1:4]
    g = G(seed, n and int(n))
    g.build()
    with open(out, "w") as f:
        f.write(g.emit())
    if len(sys.argv) > 4:
        with open(sys.argv[4], "w") as f:
            f.write(g.emit(False))

if __name__ == "__main__":
    main()
