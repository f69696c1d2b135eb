"""Writes types.inc: type computations and what they should yield, anew for every seed."""
import os, random, re, sys
base, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
r = random.Random(seed * 7919 + 38)
SCALE = 1 if tier == "quick" else 8
decls, rows = [], []   # rows: (group, text, expression)
POOL = ["T0", "T1", "T2", "T3", "int", "int const", "int volatile", "int &", "int const &", "int &&", "T0 *", "T1 const", "void", "int[3]", "int(int)", "std::nullptr_t", "char", "T0 &", "T0 const *", "T0 * const", "E"]


ALIKE = {"int": ["int const", "int volatile", "int &", "int const &"], "int const": ["int", "int const &"], "int volatile": ["int"], "int &": ["int", "int const &", "int &&"], "int const &": ["int &", "int"], "int &&": ["int"], "T1": ["T1 const"], "T1 const": ["T1"], "T0": ["T0 &", "T0 *"], "T0 *": ["T0 const *", "T0 * const"], "T0 * const": ["T0 *"], "T0 const *": ["T0 *"], "T0 &": ["T0"]}


def types(n=None, top=9, pool=None):
    k = r.random()
    n = n if n is not None else (0 if k < .08 else 1 if k < .2 else r.randrange(top + 1) if k < .97 else 40)
    small = r.sample(pool or POOL, min(len(pool or POOL), r.randrange(1, 5))) if r.random() < .5 else (pool or POOL)
    return [r.choice(small) for _ in range(n)]


def values(T):
    n = r.choice([0, 1, 1, 2, 3, 4, 6, 9]) if r.random() < .96 else 40
    return [r.choice(DOMAIN[T]) for _ in range(n)]


DOMAIN = {"int": ["0", "1", "-1", "2", "7", "2147483647", "-2147483647"], "bool": ["true", "false"], "char": ["'a'", "'b'", "'\\0'"],
          "unsigned": ["0u", "1u", "5u", "4294967295u"], "E": ["E::A", "E::B", "E::C"]}
j = ", ".join


def args(*xs):  # template arguments after others
    return "".join(", " + x for x in xs)


def row(group, text, expr):
    rows.append((group, text.replace("\\", "\\\\").replace('"', '\\"'), expr))


def same(group, got, want):
    row(group, "%s is %s" % (got, want), "std::is_same<%s, %s>::value" % (got, want))


def truth(group, got, want):
    row(group, "%s is %s" % (got, "true" if want else "false"), "(%s) == %s" % (got, "true" if want else "false"))


def number(group, got, want):
    row(group, "%s is %d" % (got, want), "(%s) == %du" % (got, want))


def tl(ts, tmpl="TemplateTypeList"):
    return "%s<%s>" % (tmpl, j(ts))


TMPLS = ["TemplateTypeList", "std::tuple", "ListA", "ListB"]


def predicate():
    name = "Pred%d" % len(decls)
    yes = set(r.sample(POOL, r.randrange(len(POOL) + 1)))
    decls.append("template <typename T> struct %s : std::false_type {};\n" % name + "".join("template <> struct %s<%s> : std::true_type {};\n" % (name, t) for t in sorted(yes)))
    return name, yes


def vpredicate(T):
    name = "Pred%d" % len(decls)
    yes = set(r.sample(DOMAIN[T], r.randrange(len(DOMAIN[T]) + 1)))
    decls.append("template <%s> struct %s : std::false_type {};\n" % (T, name) + "".join("template <> struct %s<%s> : std::true_type {};\n" % (name, v) for v in sorted(yes)))
    return name, yes


def common(lists):
    out = []
    for col in zip(*lists):
        if any(c != col[0] for c in col):
            break
        out.append(col[0])
    return out


def lists_of_types():
    for _ in range(22 * SCALE):
        a, b, t = types(), types(), r.choice(TMPLS)
        same("append", "TemplateAppendTypes_t<%s>" % j([tl(a, t)] + b), tl(a + b, t))
        same("prepend", "TemplatePrependTypes_t<%s>" % j([tl(a, t)] + b), tl(b + a, t))
        s = r.randrange(len(a) + 1); n = r.randrange(len(a) - s + 1)
        same("sub", "TemplateSubTypes_t<%d%s>" % (s, args(str(n), *a)), tl(a[s:s + n]))
        same("sub", "TemplateSubTypes_t<0%s>" % args(str(len(a)), *a), tl(a))
        n = r.randrange(len(a) + 1)
        same("sub", "TemplatePrefixTypes_t<%d%s>" % (n, args(*a)), tl(a[:n]))
        same("sub", "TemplateSuffixTypes_t<%d%s>" % (n, args(*a)), tl(a[len(a) - n:]))
        if a:
            same("element", "TemplateFirstType<%s>" % j(a), a[0]); same("element", "TemplateLastType<%s>" % j(a), a[-1])
            for i in {0, len(a) - 1, r.randrange(len(a)), r.randrange(len(a))}:
                same("element", "TemplateGetTypeParam_t<%d%s>" % (i, args(*a)), a[i]); same("element", "TemplateTypeList<%s>::type<%d>" % (j(a), i), a[i])
        number("size", "TemplateTypeList<%s>::size()" % j(a), len(a)); same("size", "TemplateTypeList<%s>::AsTuple" % j(a), tl(a, "std::tuple"))
        n = r.choice(a) if a and r.random() < .8 else r.choice(POOL)
        number("count", "TemplateCountTypes<%s>::value" % j([n] + a), a.count(n)); number("count", "(TemplateCountTypes_v<%s>)" % j([n] + a), a.count(n))
        truth("contains", "TemplateContainsType<%s>::value" % j([n] + a), n in a); truth("contains", "(TemplateContainsType_v<%s>)" % j([n] + a), n in a)
        p, yes = predicate(); f, g = [x for x in a if x in yes], [x for x in a if x not in yes]
        same("filter", "TemplateFilterTypes_t<%s>" % j([p] + a), tl(f)); same("filter", "TemplateInverseTypeFilter_t<%s>" % j([p] + a), tl(g))
        a2 = a[:7]; f, g = [x for x in a2 if x in yes], [x for x in a2 if x not in yes]  # instantiations double with every element
        same("filter", "TemplateCondAppendType_t<%s>" % j([p, tl(b, t)] + a2), tl(b + f, t)); same("filter", "TemplateInverseCondAppendType_t<%s>" % j([p, tl(b, t)] + a2), tl(b + g, t))
        for q, want in (("AlwaysTrueTypePred", a), ("AlwaysFalseTypePred", [])):
            same("always", "TemplateFilterTypes_t<%s>" % j([q] + a), tl(want))
        truth("always", "AlwaysTrueType<%s>::value" % j(a), True); truth("always", "AlwaysFalseType<%s>::value" % j(a), False)
        ls = []
        for _ in range(r.randrange(5)):
            x = types()
            if ls and r.random() < .7:
                x = ls[0][:r.randrange(len(ls[0]) + 1)] + x
            if ls and r.random() < .5:  # the first list with one type replaced by one alike
                x = list(ls[0]); near = [k for k, t in enumerate(x) if t in ALIKE]
                if near:
                    k = r.choice(near); x[k] = r.choice(ALIKE[x[k]])
            ls.append(x)
        inst = [tl(x, r.choice(TMPLS)) for x in ls]
        same("instantiate", "TemplateInstantiateWithTypeParams_t<%s>" % j([t] + inst), tl(sum(ls, []), t))
        same("common", "TemplateCommonPrefixTypes_t<%s>" % j(inst), tl(common(ls) if ls else []))
        sized = [x for x in types() if x not in ("void", "int(int)") and "&" not in x]
        row("size", "sizeOfTypes<%s>() is the sum" % j(sized), "sizeOfTypes<%s>() == %s && SizeOfTypes<%s>::value == sizeOfTypes<%s>()" % (j(sized), " + ".join(["0u"] + ["sizeof(%s)" % x for x in sized]), j(sized), j(sized)))


def lists_of_values():
    for _ in range(20 * SCALE):
        T = r.choice(list(DOMAIN)); a, b = values(T), values(T); L, M = "List<%s>::Of" % T, "List<%s>::Other" % T
        of = lambda vs, t=L: "%s<%s>" % (t, j(vs))
        tlist = lambda vs: "TemplateList<%s%s>" % (T, args(*vs))
        same("append", "TemplateAppend_t<%s, %s%s>" % (T, of(a), args(*b)), of(a + b)); same("prepend", "TemplatePrepend_t<%s, %s%s>" % (T, of(a), args(*b)), of(b + a))
        same("instantiate", "TemplateCopyParams_t<%s, %s, %s>" % (T, of(a), M), of(a, M))
        p, yes = vpredicate(T); f, g = [x for x in a if x in yes], [x for x in a if x not in yes]
        same("filter", "TemplateFilter_t<%s, %s%s>" % (T, p, args(*a)), tlist(f)); same("filter", "TemplateInverseFilter_t<%s, %s%s>" % (T, p, args(*a)), tlist(g))
        a2 = a[:7]; f, g = [x for x in a2 if x in yes], [x for x in a2 if x not in yes]
        same("filter", "TemplateCondAppend_t<%s, %s, %s%s>" % (T, p, of(b), args(*a2)), of(b + f)); same("filter", "TemplateInverseCondAppend_t<%s, %s, %s%s>" % (T, p, of(b), args(*a2)), of(b + g))
        if a:
            for i in {0, len(a) - 1, r.randrange(len(a)), r.randrange(len(a))}:
                same("element", "TemplateGetParam_t<%s, %d%s>" % (T, i, args(*a)), "std::integral_constant<%s, %s>" % (T, a[i])); row("element", "TemplateGetParam<%s, %d%s>::value" % (T, i, args(*a)), "TemplateGetParam<%s, %d%s>::value == %s" % (T, i, args(*a), a[i]))
            truth("always", "AlwaysTruePred<%s, %s>::value" % (T, a[0]), True); truth("always", "AlwaysFalsePred<%s, %s>::value" % (T, a[0]), False)
        number("size", "%s::size()" % tlist(a), len(a)); same("size", "%s::type" % tlist(a), tlist(a))
        truth("always", "AlwaysTrue<%s%s>::value" % (T, args(*a)), True); truth("always", "AlwaysFalse<%s%s>::value" % (T, args(*a)), False)
        n = r.choice([0, 1, 2, 3, 5, 30]); k = r.randrange(3); bs = [k == 1 or (k == 2 and r.random() < .5) for _ in range(n)]
        if bs and k < 2 and r.random() < .6:
            i = r.choice([0, len(bs) - 1, r.randrange(len(bs))]); bs[i] = not bs[i]
        x = j("true" if q else "false" for q in bs)
        truth("quantifier", "TemplateAll<%s>::value" % x, all(bs)); truth("quantifier", "TemplateAny<%s>::value" % x, any(bs)); truth("quantifier", "TemplateNone<%s>::value" % x, not any(bs))


def cv():
    bases = ["int", "T0", "int *", "E"]
    qual = ["", " const", " volatile", " const volatile"]
    refs = ["", " &", " &&"]
    for b in bases:
        for ref in refs:
            for q in qual:
                t = b + q + ref
                same("strip", "RemoveCvrefT<%s>" % t, b); same("strip", "RemoveCvref<%s>::type" % t, b); same("strip", "StripAndDecay_t<%s>" % t, b); same("strip", "TypeIdentityT<%s>" % t, t); same("strip", "TypeIdentity<%s>::type" % t, t)
                same("strip", "StripReferenceWrapper_t<%s>" % t, t); same("strip", "StripReferenceWrapper_t<std::reference_wrapper<%s> >" % (b + q), b + q + " &"); same("strip", "StripAndDecay_t<std::reference_wrapper<%s>%s>" % (b + q, r.choice(qual) + ref), b + q + " &"); same("void", "Void_t<%s>" % t, "void"); truth("referenceable", "IsReferenceable<%s>::value" % t, True)
    for t, e in (("int[4]", "int *"), ("int(char)", "int (*)(char)"), ("int(&)[4]", "int *"), ("int(&)(char)", "int (*)(char)")):
        same("strip", "StripAndDecay_t<%s>" % t, e); truth("referenceable", "IsReferenceable<%s>::value" % t, True)
    for t in ("void", "void const", "void volatile", "int(char) const", "void() volatile", "void() &"):
        truth("referenceable", "IsReferenceable<%s>::value" % t, False); truth("swappable", "IsSwappable<%s>::value || IsNothrowSwappable<%s>::value" % (t, t), False)
    for b, f in ((b, f) for b in bases for f in ("char", "T1", "int *")):
        for qb in range(4):
            for qf in range(4):
                to, frm = b + qual[qb], f + qual[qf]
                for name, keep, mask in (("CopyConst", False, 1), ("OrConst", True, 1), ("CopyVolatile", False, 2), ("OrVolatile", True, 2), ("CopyCv", False, 3), ("OrCv", True, 3)):
                    want = (qb & ~mask) | (qf & mask) if not keep else qb | (qf & mask)
                    if r.random() < .25 * SCALE:
                        same("cv", "%s_t<%s, %s>" % (name, to, frm), b + qual[want]); same("cv", "%s<%s, %s>::type" % (name, to, frm), b + qual[want])
    for name in ("CopyConst", "OrConst", "CopyVolatile", "OrVolatile", "CopyCv", "OrCv"):  # qualifiers behind references are not theirs
        same("cv", "%s_t<int, T0 const volatile &>" % name, "int"); same("cv", "%s_t<T0 &, int const volatile>" % name, "T0 &"); same("cv", "%s_t<T0 const &, int>" % name, "T0 const &")
    for n in range(5):
        for q in ("", " &", " const &", " &&", " const"):
            number("size", "DecayTupleSize<std::tuple<%s>%s>::value" % (j(["int"] * n), q), n)
            number("size", "DecayTupleSize<std::array<char, %d>%s>::value" % (n, q), n)
    for n in (1, 2, 7, 300):
        row("size", "PackedRawData<%d>" % n, "sizeof(PackedRawData<%d>) == %d && alignof(PackedRawData<%d>) == 1" % (n, n, n))


def functions():
    pool = ["T0", "int", "int &", "int const &", "T1 *", "T2 &&", "T0 const *", "E", "void (*)()", "std::nullptr_t", "int (&)[2]"]
    for k in range(12 * SCALE):
        R = r.choice(pool[:-1] + ["void", "void"]); n = r.choice([0, 1, 1, 2, 3, 5, 12]); a = [r.choice(pool) for _ in range(n)]; sig = "%s(%s)" % (R, j(a)) if "(" not in R else None
        if sig is None:
            R = "FunctionPointer"; sig = "FunctionPointer(%s)" % j(a)
        q = r.choice(["", " const", " volatile", " const volatile"]); c = "Functor%d" % len(decls)
        decls.append("struct %s { %s operator()(%s)%s; };\n" % (c, R, j(a), q)); self = c + q + " *"
        fs = [(sig, a), ("%s (*)(%s)" % (R, j(a)), a), ("%s (&)(%s)" % (R, j(a)), a), ("%s (* &)(%s)" % (R, j(a)), a), ("%s (* &&)(%s)" % (R, j(a)), a), ("%s (T3::*)(%s)%s" % (R, j(a), q), ["T3" + q + " *"] + a), (c, [self] + a), (c + " &", [self] + a), (c + " const &", [self] + a), (c + " &&", [self] + a), (c + " volatile &", [self] + a), (c + " const volatile &&", [self] + a), ("decltype(&%s::operator())" % c, [self] + a)]
        for t, want in fs:
            F = "FunctionTraits<%s>" % t
            number("function", "%s::arity()" % F, len(want)); same("function", "%s::return_type" % F, R); same("function", "%s::arguments" % F, tl(want))
            if want:
                i = r.randrange(len(want)); same("function", "%s::argument<%d>" % (F, i), want[i])


def classes():
    """Classes of which it is known what can be done with them."""
    for k in range(25 * SCALE):
        c = "Class%d" % len(decls); kind = lambda no=.25: "no" if r.random() < no else r.choice(["nothrow", "throws"])
        d, cc, mc, ca, ma, dt, sw = kind(), kind(), kind(), kind(), kind(), kind(.12), kind(.5); calm = r.random() < .3
        if calm:
            d = cc = mc = ca = ma = dt = "nothrow"
        if k < 14:  # each thing that a class can lack or do loudly, alone
            one = ["no", "throws"][k % 2]; d = cc = mc = ca = ma = dt = sw = "nothrow"
            d, cc, mc, ca, ma, dt, sw = [one if k // 2 == n else x for n, x in enumerate((d, cc, mc, ca, ma, dt, sw))]
        fn = lambda s, x: "    %s%s;\n" % (s, " = delete" if x == "no" else " noexcept" if x == "nothrow" else " noexcept(false)")
        s = "struct %s {\n" % c + fn("%s()" % c, d) + fn("%s(%s const &)" % (c, c), cc) + fn("%s(%s &&)" % (c, c), mc) + fn("%s & operator=(%s const &)" % (c, c), ca) + fn("%s & operator=(%s &&)" % (c, c), ma) + fn("~%s()" % c, dt)
        ic = kind(); s += fn("explicit %s(int, T0 *)" % c, ic)
        if sw != "no":
            s += fn("friend void swap(%s &, %s &)" % (c, c), sw)
        ops = {}
        for name, op in (("Equality", "=="), ("Inequality", "!="), ("LessThan", "<"), ("LessOrEqual", "<="), ("GreaterThan", ">"), ("GreaterOrEqual", ">=")):
            o = r.choice(["no", "bool", "boolean", "nonconst", "void", "bool", "free", "byref"]); ops[name] = o
            if o in ("bool", "boolean", "void"):
                s += "    %s operator%s(%s const &) const;\n" % ({"bool": "bool", "boolean": "Boolean", "void": "void"}[o], op, c)
            elif o == "nonconst":
                s += "    bool operator%s(%s const &);\n" % (op, c)
            elif o == "byref":
                s += "    bool operator%s(%s &) const;\n" % (op, c)
            elif o == "free":
                s += "    friend int operator%s(%s const &, %s const &);\n" % (op, c, c)
        calls = ["no", "bool", "void", "boolean", "two", "lvalue", "twovoid", "three", "threevoid", "named", "fleeting"]; call = calls[k % len(calls)]; s += {"no": "", "bool": "    bool operator()(int);\n", "void": "    void operator()(int);\n", "boolean": "    Boolean operator()(int) const;\n", "two": "    bool operator()(int, char *);\n", "lvalue": "    bool operator()(int &);\n", "twovoid": "    void operator()(int, char *);\n", "three": "    Boolean operator()(int, char *, int);\n", "threevoid": "    T0 operator()(int, char *, int);\n", "named": "    bool operator()(int) &;\n", "fleeting": "    bool operator()(int) &&;\n"}[call]
        decls.append(s + "};\n")
        dies = dt != "no"; can = lambda x: x != "no" and dies; never = lambda x: x == "nothrow" and dt == "nothrow"
        M = lambda e, w: truth("concept", "Models<%s>::value" % e, w)
        M("DefaultConstructible(%s)" % c, can(d)); M("NothrowDefaultConstructible(%s)" % c, never(d)); M("CopyConstructible(%s)" % c, can(cc)); M("NothrowCopyConstructible(%s)" % c, never(cc)); M("MoveConstructible(%s)" % c, can(mc)); M("NothrowMoveConstructible(%s)" % c, never(mc))
        M("CopyAssignable(%s)" % c, ca != "no"); M("NothrowCopyAssignable(%s)" % c, ca == "nothrow"); M("MoveAssignable(%s)" % c, ma != "no"); M("NothrowMoveAssignable(%s)" % c, ma == "nothrow"); M("Destructible(%s)" % c, dies)
        M("Constructible(%s, int, T0 *)" % c, can(ic)); M("NothrowConstructible(%s, int, T0 *)" % c, never(ic)); M("Constructible(%s, int)" % c, False); M("Constructible(%s, %s &)" % (c, c), can(cc)); M("Constructible(%s, T1)" % c, False)
        std = can(mc) and ma != "no"; swaps = sw != "no" or std
        truth("swappable", "IsSwappable<%s>::value" % c, swaps); truth("swappable", "IsSwappableWith<%s &, %s &>::value" % (c, c), swaps); truth("swappable", "IsSwappable<%s const>::value" % c, False); truth("swappable", "IsSwappableWith<%s, %s>::value" % (c, c), False); truth("swappable", "IsSwappableWith<%s &, T0 &>::value" % c, False)
        quiet = sw == "nothrow" if sw != "no" else std and never(mc) and ma == "nothrow"
        truth("swappable", "IsNothrowSwappable<%s>::value" % c, quiet); truth("swappable", "IsNothrowSwappableWith<%s &, %s &>::value" % (c, c), quiet); truth("swappable", "IsNothrowSwappableWith<%s, %s>::value" % (c, c), False)
        truth("swappable", "IsSwappable<%s[3]>::value" % c, swaps); truth("swappable", "IsNothrowSwappable<%s[2][3]>::value" % c, quiet)
        M("Swappable(%s &)" % c, swaps); M("Swappable(%s &, %s &)" % (c, c), swaps); M("Swappable(%s const &)" % c, False); M("Swappable(%s &, T0 &)" % c, False)
        for name, o in ops.items():
            ok = o in ("bool", "boolean", "free"); M("%sComparable(%s)" % (name, c), ok); M("%sComparable(%s, %s)" % (name, c, c), ok); M("%sComparable(%s const &)" % (name, c), ok); M("%sComparable(%s, T0)" % (name, c), False)
        M("Callable(%s, int)" % c, call in ("bool", "void", "boolean", "named")); M("Callable(%s &, int &)" % c, call in ("bool", "void", "boolean", "lvalue", "named")); M("Callable(%s const &, int)" % c, call == "boolean"); M("Callable(%s, int, char *)" % c, call in ("two", "twovoid")); M("Callable(%s, int, char *, int)" % c, call in ("three", "threevoid")); M("Callable(%s)" % c, False)
        for x, p in ((True, "UnaryPredicate(%s, int)"), (True, "Predicate(%s, int)"), (False, "BinaryPredicate(%s, int, char *)"), (False, "Predicate(%s, int, char *)")):
            M(p % c, call in (("bool", "boolean") if x else ("two",)))
        M("UnaryPredicate(%s, int &)" % c, call in ("bool", "boolean", "lvalue")); M("UnaryPredicate(%s &, int)" % c, call in ("bool", "boolean", "named")); M("Predicate(%s &, int)" % c, call in ("bool", "boolean", "named")); M("TrinaryPredicate(%s, int, char *, int)" % c, call == "three"); M("Predicate(%s, int, char *, int)" % c, call == "three")
        facts = [("DefaultConstructible(%s)" % c, can(d)), ("MoveAssignable(%s)" % c, ma != "no"), ("Destructible(%s)" % c, dies), ("Callable(%s, int)" % c, call in ("bool", "void", "boolean", "named")), ("Swappable(%s &)" % c, swaps), ("CopyConstructible(%s)" % c, can(cc))]
        for _ in range(3):
            e, w = formula(facts, 3); M(e, w)
        fs = [formula(facts, 1) for _ in range(r.randrange(1, 4))]
        truth("concept", "Models<%s>::value" % j(e for e, _ in fs), all(w for _, w in fs))
        t = re.sub(r"\b%s\b" % c, "T", j(e for e, _ in fs))
        decls.append("struct Pick%d {\n    template <typename T, SHAREMIND_REQUIRES_CONCEPTS(%s)> static std::true_type pick(int);\n    template <typename T, SHAREMIND_REQUIRES(!Models<%s>::value)> static std::false_type pick(int);\n"
                     "    template <typename T> static auto result(int) -> SHAREMIND_REQUIRE_CONCEPTS_R(std::true_type, %s);\n    template <typename T> static std::false_type result(long);\n};\n" % (k, t, t, t))
        truth("concept", "decltype(Pick%d::pick<%s>(0))::value" % (k, c), all(w for _, w in fs)); truth("concept", "decltype(Pick%d::result<%s>(0))::value" % (k, c), all(w for _, w in fs))


def formula(facts, depth):
    k = r.randrange(5) if depth else 0
    if k == 0:
        return r.choice(facts)
    if k == 1:
        e, w = formula(facts, depth - 1); return "Not(%s)" % e, not w
    sub = [formula(facts, depth - 1) for _ in range(r.randrange(4))]
    name, f = [("All", all), ("Any", any), ("None", lambda x: not any(x))][k - 2]
    if not sub:
        sub = [formula(facts, 0)]
    return "%s(%s)" % (name, j(e for e, _ in sub)), f([w for _, w in sub])


def known():
    M = lambda e, w: truth("concept", "Models<%s>::value" % e, w)
    D = ["Root", "Left", "Right", "Bottom", "T0"]; up = {"Root": {"Root"}, "Left": {"Left", "Root"}, "Right": {"Right", "Root"}, "Bottom": {"Bottom", "Left", "Right", "Root"}, "T0": {"T0"}}
    for a in D:
        for b in D:
            M("BaseOf(%s, %s)" % (a, b), a in up[b]); M("DerivedFrom(%s, %s)" % (a, b), b in up[a]); M("Same(%s, %s)" % (a, b), a == b); M("Same(%s &, %s)" % (a, b), False); M("Same(%s const &, %s const &)" % (a, b), a == b)
            M("ConvertibleTo(%s *, %s *)" % (a, b), b in up[a] and (a, b) != ("x", "y")); M("DecaysTo(%s const &, %s)" % (a, b), a == b); M("DecaysTo(%s &&, %s)" % (a, b), a == b); M("DecaysTo(%s, %s &)" % (a, b), False)
    for a, b, w in (("Secretly", "Root", True), ("Twice", "Plain", True), ("Twice", "Once", True), ("Plain", "Twice", False), ("Secretly", "Left", False), ("int", "int", False), ("T0", "T0", True), ("Union", "Union", False)):
        M("DerivedFrom(%s, %s)" % (a, b), w); M("BaseOf(%s, %s)" % (b, a), w)
    M("ConvertibleTo(T0, Explicit)", False); M("Constructible(Explicit, T0)", True); M("ConvertibleTo(Secretly *, Root *)", False); M("ConvertibleTo(Twice *, Plain *)", False)
    # comparisons all of whose four combinations of const operands are asked for
    for k in range(16):
        for left, right in (("Cmp%d" % k, "Cmp%d" % k), ("Cmp%d" % k, "Right%d" % k)):
            if left == right:
                decls.append("struct Cmp%d {}; struct Right%d {};\n" % (k, k))
            for op in ("==", "<", "!=", ">="):
                decls.append("".join("%s operator%s(%s%s &, %s%s &);\n" % ("bool" if k >> n & 1 else "void", op, left, " const" if n & 2 else "", right, " const" if n & 1 else "") for n in range(4)))
        for name in ("Equality", "LessThan", "Inequality", "GreaterOrEqual"):
            M("%sComparable(Cmp%d)" % (name, k), k == 15); M("%sComparable(Cmp%d, Right%d)" % (name, k, k), k == 15); M("%sComparable(Cmp%d &)" % (name, k), k & 1 == 1); M("%sComparable(Cmp%d &, Right%d const &)" % (name, k, k), k >> 1 & 1 == 1)
        M("EqualityComparable(Right%d, Cmp%d)" % (k, k), False)
    # swapping two types: both ways, quietly or not
    for k in range(9):
        ways = k % 3, k // 3
        decls.append("struct One%d { One%d(One%d &&) = delete; }; struct Two%d { Two%d(Two%d &&) = delete; };\n" % ((k,) * 6))
        for (x, y), w in zip((("One%d" % k, "Two%d" % k), ("Two%d" % k, "One%d" % k)), ways):
            if w:
                decls.append("void swap(%s &, %s &)%s;\n" % (x, y, " noexcept" if w == 2 else ""))
        for x, y in (("One", "Two"), ("Two", "One")):
            e = "%s%d &, %s%d &" % (x, k, y, k)
            truth("swappable", "IsSwappableWith<%s>::value" % e, all(ways)); truth("swappable", "IsNothrowSwappableWith<%s>::value" % e, ways == (2, 2)); M("Swappable(%s)" % e, all(ways))
        truth("swappable", "IsSwappable<One%d>::value" % k, False)
    for t in ("void", "void const"):
        for u in ("T0 &", "int &", "void"):
            truth("swappable", "IsSwappableWith<%s, %s>::value || IsSwappableWith<%s, %s>::value || IsNothrowSwappableWith<%s, %s>::value" % (t, u, u, t, u, t), False)
    # what is asked of a nullable pointer, one of them missing
    asked = ["%s();", "%s(%s const &);", "%s & operator=(%s const &);", "explicit operator int() const; operator bool() const;", "%s & operator=(std::nullptr_t);", "friend bool operator==(%s const &, %s const &);", "friend bool operator!=(%s const &, %s const &);", "friend bool operator==(%s const &, std::nullptr_t);", "friend bool operator!=(%s const &, std::nullptr_t);", "friend bool operator==(std::nullptr_t, %s const &);", "friend bool operator!=(std::nullptr_t, %s const &);", "~%s();"]
    bad = {0: "explicit %s(int);", 1: "%s(%s const &) = delete;", 2: "%s & operator=(%s const &) = delete;", 3: "explicit operator bool() const;", 4: "void operator=(std::nullptr_t);", 7: "friend void operator==(%s const &, std::nullptr_t);", 8: "friend void operator!=(%s const &, std::nullptr_t);", 9: "friend void operator==(std::nullptr_t, %s const &);", 10: "friend T0 operator!=(std::nullptr_t, %s const &);", 5: "friend void operator==(%s const &, %s const &);", 6: "friend void operator!=(%s const &, %s const &);", 11: "~%s() = delete;"}
    for k in range(-2, len(asked)):
        c = "Null%d" % (k + 2); lines = [x.replace("%s", c) if n != k else bad[n].replace("%s", c) for n, x in enumerate(asked)]
        if k == -2:
            decls.append("struct Via%s;\n" % c); lines[4] = "Via%s operator=(std::nullptr_t);" % c
        decls.append("struct %s { %s };\n" % (c, " ".join(lines)))
        if k == -2:
            decls.append("struct Via%s { operator %s &() const; };\n" % (c, c))
        M("NullablePointer(%s)" % c, k == -1)
    M("Hash(FixedHash &, int)", False); M("Hash(FixedHash const &, int)", False); M("Hash(std::size_t (*)(int), int)", True); M("Hash(std::size_t (*)(int), T0)", False); M("Hash(NoCopyHash, int)", False); M("Hash(TwoFacedHash, int)", False)
    M("DecaysTo(int (&)[3], int *)", True); M("ConvertibleTo(int, char)", True); M("ConvertibleTo(int *, char *)", False); M("ConvertibleTo(char *, void *)", True); M("ConvertibleTo(void *, char *)", False); M("ConvertibleTo(Boolean, bool)", True); M("ConvertibleTo(T0, bool)", False)
    for t, i, s in (("int", 1, 1), ("unsigned", 1, 0), ("char", 1, None), ("bool", 1, 0), ("long long", 1, 1), ("unsigned short", 1, 0), ("double", 0, 1), ("float", 0, 1), ("int *", 0, None), ("T0", 0, None), ("E", 0, None), ("signed char", 1, 1), ("std::size_t", 1, 0), ("std::nullptr_t", 0, None)):
        M("Integral(%s)" % t, i == 1)
        if t != "char":
            M("Signed(%s)" % t, s == 1); M("Unsigned(%s)" % t, s == 0); M("SignedIntegral(%s)" % t, i == 1 and s == 1); M("UnsignedIntegral(%s)" % t, i == 1 and s == 0)
        M("Integral(%s &)" % t, False)
    for t, w in (("int *", True), ("T0 const *", True), ("void *", True), ("void (*)(int)", True), ("std::shared_ptr<int>", False), ("std::unique_ptr<int>", False), ("int", False), ("T0", False), ("Nullable", True)):
        M("NullablePointer(%s)" % t, w)
    for h, t, w in (("std::hash<int>", "int", True), ("std::hash<std::string>", "std::string", True), ("std::hash<T0 *>", "T0 *", True), ("std::hash<int>", "std::string", False), ("int", "int", False), ("NarrowHash", "int", False), ("MutableHash", "int", False), ("FixedHash", "int", True), ("FixedHash", "T0", False), ("LvalueHash", "int", False)):
        M("Hash(%s, %s)" % (h, t), w)
    # iterators: input, output, forward, bidirectional, random access, value type
    its = [("int *", 1, 1, 1, 1, 1, "int"), ("int const *", 1, 0, 1, 1, 1, "int"), ("std::vector<T1>::iterator", 1, 1, 1, 1, 1, "T1"), ("std::vector<int>::const_iterator", 1, 0, 1, 1, 1, "int"), ("std::deque<int>::iterator", 1, 1, 1, 1, 1, "int"), ("std::list<char>::iterator", 1, 1, 1, 1, 0, "char"), ("std::list<char>::const_iterator", 1, 0, 1, 1, 0, "char"),
           ("std::forward_list<int>::iterator", 1, 1, 1, 0, 0, "int"), ("std::forward_list<int>::const_iterator", 1, 0, 1, 0, 0, "int"), ("std::set<int>::iterator", 1, 0, 1, 1, 0, "int"), ("std::string::iterator", 1, 1, 1, 1, 1, "char"), ("std::reverse_iterator<int *>", 1, 1, 1, 1, 1, "int"), ("std::reverse_iterator<std::list<int>::iterator>", 1, 1, 1, 1, 0, "int"),
           ("int", 0, 0, 0, 0, 0, "int"), ("T0", 0, 0, 0, 0, 0, "int"), ("int &", 0, 0, 0, 0, 0, "int"), ("std::unique_ptr<int>", 0, 0, 0, 0, 0, "int"), ("std::istream_iterator<int>", 1, 0, None, 0, 0, "int"), ("std::vector<bool>::iterator", 1, 1, 0, 0, 0, "bool")]
    for t, i, o, f, b, x, v in its:
        for name, w in (("Iterator", i), ("InputIterator", i), ("OutputIterator", o), ("ForwardIterator", f), ("BidirectionalIterator", b), ("RandomAccessIterator", x)):
            if w is not None:
                M("%s(%s)" % (name, t), w == 1); M("%sTo(%s, %s)" % (name, t, v), w == 1); M("%sTo(%s, T2)" % (name, t), False)
        if t != "std::vector<bool>::iterator":
            M("ValueSwappable(%s)" % t, i == 1 and o == 1)
        if i:
            same("iterator", "IteratorValueTypeT<%s>" % t, v); same("iterator", "IteratorDifferenceTypeT<%s>" % t, "std::ptrdiff_t")
            for q in ("reference", "pointer", "iterator_category"):
                same("iterator", "Iterator%sT<%s>" % ({"reference": "Reference", "pointer": "Pointer", "iterator_category": "Category"}[q], t), "std::iterator_traits<%s>::%s" % (t, q))
    # iterators with one thing missing or different: which of the concepts are left
    full = {"kinds": "using iterator_category = std::random_access_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = int *;", "reference": "using reference = int &;", "ctor": "@();", "copy": "@(@ const &);", "assign": "@ & operator=(@ const &);", "dtor": "~@();", "swap": "", "star": "int & operator*() const;",
            "pre": "@ & operator++();", "post": "@ operator++(int);", "predec": "@ & operator--();", "postdec": "@ operator--(int);", "eq": "bool operator==(@ const &) const;", "ne": "bool operator!=(@ const &) const;", "lt": "bool operator<(@ const &) const;", "le": "bool operator<=(@ const &) const;", "gt": "bool operator>(@ const &) const;", "ge": "bool operator>=(@ const &) const;",
            "at": "int & operator[](std::ptrdiff_t) const;", "add": "@ & operator+=(std::ptrdiff_t);", "sub": "@ & operator-=(std::ptrdiff_t);", "plus": "@ operator+(std::ptrdiff_t) const;", "plus2": "friend @ operator+(std::ptrdiff_t, @);", "minus": "@ operator-(std::ptrdiff_t) const;", "dist": "std::ptrdiff_t operator-(@ const &) const;"}
    RA, BI, FW, IN, IT = "111111", "111110", "111100", "110000", "100000"; NOT = "000000"
    variants = [("", "", RA), ("ctor", "explicit @(int);", "111000"), ("copy", "@(@ const &) = delete;", NOT), ("assign", "@ & operator=(@ const &) = delete;", NOT), ("dtor", "~@() = delete;", NOT), ("swap", "friend void swap(@ &, @ &) = delete;", NOT), ("star", "int operator*() const;", NOT), ("star", "int const & operator*() const;", NOT),
                ("pre", "void operator++();", NOT), ("pre", "@ operator++();", NOT), ("pre", "Via@ operator++();", NOT), ("post", "", IT), ("post", "void operator++(int);", IT), ("post", "Read@ operator++(int);", IN), ("post", "Look@ operator++(int);", "110000"), ("post", "@ & operator++(int);", RA), ("post", "Write@ operator++(int);", IN), ("post", "Keep@ operator++(int);", RA), ("swap", "friend void swap(@ &, @ &);", RA), ("predec", "", FW), ("predec", "@ operator--();", FW), ("predec", "Via@ operator--();", FW),
                ("postdec", "", FW), ("postdec", "void operator--(int);", FW), ("postdec", "Look@ operator--(int);", FW), ("eq", "", "101000"), ("eq", "void operator==(@ const &) const;", "101000"), ("eq", "bool operator==(@ &);", "101000"), ("ne", "", "101000"), ("lt", "", BI), ("le", "", BI), ("gt", "", BI), ("ge", "", BI), ("at", "", BI), ("at", "T0 operator[](std::ptrdiff_t) const;", BI), ("at", "Via@ operator[](std::ptrdiff_t) const;", BI),
                ("add", "", BI), ("add", "@ operator+=(std::ptrdiff_t);", BI), ("sub", "", BI), ("sub", "void operator-=(std::ptrdiff_t);", BI), ("plus", "", BI), ("plus", "@ & operator+(std::ptrdiff_t) const;", BI), ("plus2", "", BI), ("minus", "", BI), ("dist", "", BI), ("dist", "int operator-(@ const &) const;", BI)]
    for k, (part, line, want) in enumerate(variants):
        c = "It%d" % k; body = dict(full, **({part: line} if part else {}))
        decls.append(("struct Via@; struct Write@ { int & operator*() const; }; struct Keep@ { int & operator*() const; operator struct @() const; }; struct Read@ { int operator*() const; }; struct Look@ { int operator*() const; operator @() const; };\n" .replace("operator @", "operator struct @") + "struct @ { %s };\nstruct Via@ { operator @ &() const; };\n" % " ".join(body.values())).replace("@", c))
        for name, w in zip(("Iterator", "InputIterator", "OutputIterator", "ForwardIterator", "BidirectionalIterator", "RandomAccessIterator"), want):
            M("%s(%s)" % (name, c), w == "1"); M("%sTo(%s, int)" % (name, c), w == "1"); M("%sTo(%s, long)" % (name, c), False)
        M("ValueSwappable(%s)" % c, want[0] == "1")
    for part, line in (("copy", "@(@ const &) = delete;"), ("assign", "@ & operator=(@ const &) = delete;"), ("dtor", "~@() = delete;")):
        c = "Swapped_%s" % part; decls.append(("struct @ { friend void swap(@ &, @ &); %s };\n" % " ".join(dict(full, **{part: line}).values())).replace("@", c)); M("Iterator(%s)" % c, False); M("InputIterator(%s)" % c, False)
    for k, (ref, want, more) in enumerate((("int", "110000", {}), ("int const &", "110111", {}), ("int &&", "110000", {}), ("int const &", "110000", {"post": "Look@ operator++(int);"}), ("int const &", "110111", {"post": "Keep@ operator++(int);"}), ("int const &", "110000", {"post": "Read@ operator++(int);"}), ("int const &", "110100", {"postdec": "Look@ operator--(int);"}))):
        c = "Ref%d" % k; body = dict(full, reference="using reference = %s;" % ref, star="%s operator*() const;" % ref, at="%s operator[](std::ptrdiff_t) const;" % ref, **more)
        decls.append(("struct Look@ { int operator*() const; operator struct @() const; }; struct Keep@ { int const & operator*() const; operator struct @() const; }; struct Read@ { int const & operator*() const; };\nstruct @ { %s };\n" % " ".join(body.values())).replace("@", c))
        for name, w in zip(("Iterator", "InputIterator", "OutputIterator", "ForwardIterator", "BidirectionalIterator", "RandomAccessIterator"), want):
            M("%s(%s)" % (name, c), w == "1")
    M("ValueSwappable(Ref1)", False)
    for t in ("iterator_category = std::random_access_iterator_tag", "value_type = int", "difference_type = std::ptrdiff_t", "pointer = int *", "reference = int &"):
        c = "Untyped%d" % len(decls); assert ("using %s;" % t) in full["kinds"] + full["reference"]
        decls.append(("struct @ { %s };\n" % " ".join(full.values())).replace("using %s;" % t, "").replace("@", c)); M("Iterator(%s)" % c, False); M("ForwardIterator(%s)" % c, False)
    truth("detected", "IsDetectedConvertible<Explicit, TypeOf, WithT0>::value", False); truth("detected", "IsDetectedConvertible<T0, TypeOf, WithT0>::value", True); truth("detected", "IsDetectedExact<T0 const, TypeOf, WithT0>::value", False)
    same("iterator", "IteratorCategoryT<std::list<int>::iterator>", "std::bidirectional_iterator_tag")
    # detection
    for t in ["WithType", "WithValue", "T0", "int", "int &", "void", "WithBoth"]:
        ty, va = t in ("WithType", "WithBoth"), t in ("WithValue", "WithBoth")
        truth("detected", "IsDetected<TypeOf, %s>::value" % t, ty); truth("detected", "IsDetected<ValueOf, %s>::value" % t, va); same("detected", "DetectedT<TypeOf, %s>" % t, "char" if ty else "NoneSuch"); same("detected", "DetectedOrT<T3, TypeOf, %s>" % t, "char" if ty else "T3"); same("detected", "DetectedOr<void, ValueOf, %s>::Type" % t, "long &" if va else "void"); same("detected", "DetectedOr<void, ValueOf, %s>::ValueType" % t, "std::true_type" if va else "std::false_type")
        truth("detected", "IsDetectedExact<char, TypeOf, %s>::value" % t, ty); truth("detected", "IsDetectedExact<int, TypeOf, %s>::value" % t, False); truth("detected", "IsDetectedExact<NoneSuch, TypeOf, %s>::value" % t, not ty); truth("detected", "IsDetectedConvertible<int, TypeOf, %s>::value" % t, ty); truth("detected", "IsDetectedConvertible<T0, TypeOf, %s>::value" % t, False); truth("detected", "IsDetectedConvertible<long, ValueOf, %s>::value" % t, va)
        truth("detected", "IsDetected<Both, %s, %s>::value" % (t, t), ty and va)
    size = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned": 32, "long": 64, "unsigned long": 64}
    for a in size:
        for b in size:
            truth("demotion", "impl::can_demote<%s, %s>::value" % (a, b), size[a] < size[b])
    for t in ("float", "double", "T0 *", "E"):
        truth("demotion", "impl::can_demote<%s, long>::value || impl::can_demote<char, %s>::value" % (t, t), False)
    for a in ("unsigned char", "unsigned short", "unsigned"):
        for _ in range(6):
            v = r.choice([0, 1, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1, r.randrange(2**64)]); row("demotion", "%d demoted to %s" % (v, a), "demote_integer<%s>(%dull) == %du" % (a, v, v % 2**size[a]))
    row("demotion", "demoted to bool", "demote_integer<bool>(2) == true && demote_integer<bool>(0u) == false && demote_integer<signed char>(-3) == -3")
    for a in sorted(ALIKE):
        for b in ALIKE[a]:
            for before in ([], ["T3", "void"]):
                same("common", "TemplateCommonPrefixTypes_t<%s, %s>" % (tl(before + [a, "char"]), tl(before + [b, "char"])), tl(before)); number("count", "TemplateCountTypes<%s>::value" % j([a] + before + [b, a, b]), 1)
    for t, w in (("signed char", 7), ("unsigned", 4000000000), ("bool", 1), ("char", 65)):
        row("enum", "SHAREMIND_ENUMCONSTANT of %s" % t, "Constant_%s::id == %du && std::is_same<std::underlying_type<decltype(Constant_%s::id)>::type, %s>::value" % (t.replace(" ", "_"), w, t.replace(" ", "_"), t)); decls.append("struct Constant_%s { SHAREMIND_ENUMCONSTANT(%s, id, %d + %du); };\n" % (t.replace(" ", "_"), t, w - w // 2, w // 2))


for f in (lists_of_types, lists_of_values, cv, functions, classes, known):
    f()
with open(os.path.join(base, "types.inc"), "w") as f:
    f.write("".join(decls))
    groups = []
    for g, _, _ in rows:
        if g not in groups:
            groups.append(g)
    for i, g in enumerate(groups):
        # one that does not compile is left out by defining VM_SKIP_<group>
        f.write("#ifdef VM_SKIP_%s\nstatic Row const rows%d[] = {{\"the computations of group %s compile\", false}};\n#else\n" % (g, i, g))
        f.write("static Row const rows%d[] = {\n%s};\n#endif\n" % (i, "".join('    {"%s", (%s)},\n' % (t, e) for h, t, e in rows if h == g)))
    f.write("static RowSet const rowSets[] = {\n%s};\n" % "".join('    {"%s", rows%d, sizeof(rows%d) / sizeof(Row)},\n' % (g, i, i) for i, g in enumerate(groups)))
with open(os.path.join(base, "groups"), "w") as f:
    f.write("\n".join(groups))
