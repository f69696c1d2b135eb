"""Writes literals.inc: for every literal operator, texts of literals and the numbers they denote."""
import os, random, sys
base, seed, tier = sys.argv[1], int(sys.argv[2]), sys.argv[3]
r = random.Random(seed * 7919 + 35)
N = 60 if tier == "quick" else 300
sizes = {"int8": 8, "int16": 16, "int32": 32, "int64": 64, "int_fast8": 8, "int_fast16": 64, "int_fast32": 64, "int_fast64": 64,
         "int_least8": 8, "int_least16": 16, "int_least32": 32, "int_least64": 64, "intmax": 64, "intptr": 64}
types = []  # suffix, alias, C type, bits, signed
for n, b in sizes.items():
    parts = n.split("_")
    s = parts[0] if len(parts) == 1 else "int" + parts[1].capitalize()
    if n in ("intmax", "intptr"):
        s = "int" + n[3:].capitalize()
    cap = s[0].upper() + s[1:]
    types.append((s, cap + "Literal", "std::%s_t" % n, b, True))
    types.append(("u" + s, "U" + s + "Literal", "std::u%s_t" % n, b, False))
types.append(("sizeT", "SizetLiteral", "std::size_t", 64, False))


def number(bits, top, wrap):
    k = r.randrange(8)
    if k == 0:
        return r.choice([0, 1, 7, 8, 9, 10, 15, 16])
    if k == 1:
        return max(0, top - r.randrange(3))
    if k == 2:
        return top + 1 + r.randrange(3) if wrap else top
    if k == 3:
        x = r.choice([8, 10, 16]) ** r.randrange(1, 23) + r.randrange(-1, 2)
    elif k == 4:
        x = (1 << r.randrange(bits + (70 if wrap else 0))) + r.randrange(-1, 2)
    elif k == 5 and wrap:
        x = r.getrandbits(r.randrange(1, 130))
    else:
        x = r.getrandbits(r.randrange(1, bits + 1))
    x = max(0, x)
    return x if wrap or x <= top else x % (top + 1)


def text(x):
    k = r.randrange(3)
    if k == 0:
        return str(x)
    if k == 1:
        return "0" * r.choice([1, 1, 1, 2, 5, 25]) + ("%o" % x if x or r.random() < .5 else "")
    h = "".join(c.upper() if r.random() < .5 else c for c in "%x" % x)
    return r.choice(["0x", "0X"]) + "0" * r.choice([0, 0, 0, 1, 3, 20]) + h


with open(os.path.join(base, "literals.inc"), "w") as f, open(os.path.join(base, "texts.inc"), "w") as g:
    for i, (s, alias, t, bits, signed) in enumerate(types):
        top = (1 << (bits - (1 if signed else 0))) - 1
        rows, texts, seen = [], [], set()
        todo = [(w, top + d, b) for w in (False, True) for d in ((-1, 0) if not w else (-1, 0, 1)) for b in range(3)]
        while len(rows) < N + len(todo):
            if len(rows) < len(todo):
                wrap, x, b = todo[len(rows)]
                lit = [str(x), "0%o" % x, "0x%x" % x][b]
            else:
                wrap = r.random() < .5
                x = number(bits, top, wrap)
                lit = text(x)
            op = s + ("_overflow" if wrap and signed else "_no_overflow" if not wrap and not signed else "")
            rows.append('    {"%s_%s", std::is_same<decltype(%s_%s), %s>::value, static_cast<std::uint64_t>(%s_%s), %dull},\n'
                        % (lit, op, lit, op, t, lit, op, x % (1 << bits) if not signed else ((x + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1))) % (1 << 64)))
            if lit not in seen:
                seen.add(lit)
                texts.append('    {"%s of %s", traits<IL::%s<%s> >(), %dull, %s, false},\n'
                             % (lit, t, alias, ",".join("'%s'" % c for c in lit), x % (1 << 64), "true" if x > top else "false"))
        for _ in range(8):
            lit = text(number(bits, top, True))
            lit = {0: lambda: lit[:1] + "'" + lit[1:] if len(lit) > 1 and lit[1] not in "xX" else "1'2",
                   1: lambda: "%d.%d" % (r.randrange(100), r.randrange(100)), 2: lambda: "0%s" % r.choice("bB") + "%s" % bin(r.randrange(500))[2:],
                   3: lambda: "%de%d" % (r.randrange(100), r.randrange(100)), 4: lambda: ".%d" % r.randrange(1000),
                   5: lambda: "0%d%s%d" % (r.randrange(8), r.choice("89"), r.randrange(8)), 6: lambda: "0x%xp%d" % (r.randrange(999), r.randrange(9))}[r.randrange(7)]()
            if lit not in seen:
                seen.add(lit)
                texts.append('    {"%s of %s", traits<IL::%s<%s> >(), 0, false, true},\n' % (lit, t, alias, ",".join("'\\''" if c == "'" else "'%s'" % c for c in lit)))
        f.write("static Row const rows%d[] = {\n%s};\n" % (i, "".join(rows)))
        g.write("static Text const texts%d[] = {\n%s};\n" % (i, "".join(texts)))
    for h, n, k in ((f, "Row", "rows"), (g, "Text", "texts")):
        h.write("struct %sSet { char const * type; %s const * begin; std::size_t n; };\nstatic %sSet const %sSets[] = {\n" % (n, n, n, k))
        for i, (s, alias, t, bits, signed) in enumerate(types):
            h.write('    {"%s", %s%d, sizeof(%s%d) / sizeof(%s)},\n' % (s, k, i, k, i, n))
        h.write("};\n")


# A program with one literal per line: those which are refused, and those which are not.
lines = []
for s, alias, t, bits, signed in types:
    top = (1 << (bits - (1 if signed else 0))) - 1
    strict, wrapping = (s, s + "_overflow") if signed else (s + "_no_overflow", s)
    over = [top + 1, top + 2 + r.randrange(9), 1 << (bits + r.randrange(1, 40)), (1 << bits) + r.randrange(1 << 7)]
    for x in over:
        lines.append((text(x), strict, True))
    lines.append((text(r.choice(over)), wrapping, False))
    lines.append((text((1 << r.randrange(60, 120)) + r.getrandbits(60)), wrapping, False))
    lines.append(("0x%x" % ((1 << 68) + r.getrandbits(68)), wrapping, False))
    lines.append((text(top), strict, False))
    lines.append((text(r.randrange(top)), strict, False))
    bad = ["%d.%d" % (r.randrange(100), r.randrange(100)), "0%s" % r.choice("bB") + bin(r.randrange(2, 500))[2:], "%de%d" % (r.randrange(1, 100), r.randrange(100)), "1'%d" % r.randrange(100)]
    for x in r.sample(bad, 2):
        lines.append((x, strict, True))
        lines.append((x, wrapping, True))
lines = [(a, b, c) for i, (a, b, c) in enumerate(lines) if (a, b) not in [(d, e) for d, e, _ in lines[:i]]]
with open(os.path.join(base, "refused.cpp"), "w") as f, open(os.path.join(base, "refused.txt"), "w") as g:
    f.write("#include <sharemind/CstddefLiterals.h>\n#include <sharemind/CstdintLiterals.h>\nusing namespace sharemind;\n")
    for i, (lit, op, refused) in enumerate(lines):
        f.write("auto v%d() { return %s_%s; }\n" % (i, lit, op))
        g.write("%d %s_%s\n" % (refused, lit, op))
