"""Writes translation units with random element types for harness/elems.hpp."""
import hashlib, os, random, re
import build

SCALARS = ["bool", "char", "signed char", "unsigned char", "wchar_t", "char16_t", "char32_t", "short", "unsigned short", "int", "unsigned", "long",
           "unsigned long long", "float", "double", "long double", "__int128", "void*", "int (*)(int)", "int Some::*", "void (Some::*)()"]


def value_of(t, x):
    """statements that give the lvalue x of scalar type t random bits from the stream s"""
    if t == "bool":
        return "%s = s.next() & 1;" % x
    if t == "long double":  # ten value bytes; the explicit integer bit has to be set
        return "{ uint64_t m_ = s.next() | 1ull << 63; uint16_t e_ = (uint16_t)(s.next() %% 32766 + 1); std::memset(&%s, 0, 16); std::memcpy(&%s, &m_, 8); std::memcpy((char*)&%s + 8, &e_, 2); }" % (x, x, x)
    return "s.bytes(&%s, sizeof(%s));" % (x, x)


def equal(t, a, b):
    if t == "bool":
        return "%s == %s" % (a, b)
    if t == "long double":
        return "elems::same_bytes(&%s, &%s, 10)" % (a, b)
    return "elems::same_bytes(&%s, &%s, sizeof(%s))" % (a, b, a)


def a_size(rng):
    r = rng.random()
    if r < 0.45:
        return rng.randint(1, 80)
    if r < 0.85:
        return max(1, (1 << rng.randint(0, 12)) + rng.randint(-2, 2))
    if r < 0.97:
        return rng.randint(81, 3000)
    return rng.randint(3000, 40000)


HOSTILE = [False]


def hostile(rng, name):
    """members that catch code which uses an operator or a conversion where it must not"""
    res = []
    if not HOSTILE[0]:
        return res
    if rng.random() < 0.35:
        res.append(rng.choice(["void operator&() const = delete; void operator&() = delete;",
                               "struct Proxy {}; Proxy operator&() const { return Proxy(); }"]))
    if rng.random() < 0.3:
        res.append("template < class U > void operator,(U const&) const = delete;")
    if rng.random() < 0.3:
        res.append(rng.choice(["static void* operator new(size_t) = delete; static void operator delete(void*) {}",
                               "static void* operator new(size_t, void*) = delete;",
                               "static void* operator new(size_t n) { return ::operator new(n); } static void operator delete(void* p) { ::operator delete(p); }"]))
    if rng.random() < 0.3:
        res.append("template < class U, class = typename std::enable_if< !std::is_same< typename std::decay< U >::type, %s >::value >::type > %s(U&&) { std::abort(); }" % (name, name))
    if rng.random() < 0.2:
        res.append("explicit operator bool() const = delete; bool operator!() const = delete;")
    if rng.random() < 0.2:
        res.append("template < class U > bool operator==(U const&) const = delete; template < class U > bool operator!=(U const&) const = delete; template < class U > bool operator<(U const&) const = delete;")
    return res


def scalar(rng, i):
    t = rng.choice(SCALARS)
    alias = "S%d" % i
    decl = "typedef %s %s;" % (t, alias) if "(*)" not in t and "::*" not in t else "using %s = %s;" % (alias, t)
    return alias, decl, t, [value_of(t, "x")], equal(t, "a", "b"), True


def record(rng, i):
    """a class with generated members"""
    name = "R%d" % i
    n = rng.randint(1, 6)
    packed = rng.random() < 0.2
    members, fill, same = [], [], []
    for k in range(n):
        m = "m%d" % k
        r = rng.random()
        t = rng.choice(SCALARS[:18])
        if packed and t in ("long double",):
            t = "double"
        if r < 0.55:
            members.append("%s %s;" % (t, m))
            if packed:
                fill.append("{ %s y_; std::memset(&y_, 0, sizeof y_); %s x.%s = y_; }" % (t, value_of(t, "y_"), m))
                same.append("[&] { %s p_ = a.%s; decltype(p_) q_ = b.%s; return %s; }()" % (t, m, m, equal(t, "p_", "q_")))
            else:
                fill.append(value_of(t, "x." + m))
                same.append(equal(t, "a." + m, "b." + m))
        elif r < 0.75:
            c = rng.choice([1, 2, 3, 5, 7, 13, 31, 64, 100])
            members.append("unsigned char %s[%d];" % (m, c))
            fill.append("s.bytes(x.%s, sizeof x.%s);" % (m, m))
            same.append("elems::same_bytes(a.%s, b.%s, sizeof a.%s)" % (m, m, m))
        elif r < 0.9:
            w = rng.randint(1, 31)
            members.append("unsigned %s : %d;" % (m, w))
            fill.append("x.%s = (unsigned)(s.next() & %d);" % (m, (1 << w) - 1))
            same.append("a.%s == b.%s" % (m, m))
        else:
            e = rng.choice([32, 64, 128, 256]) if rng.random() < 0.5 else 16
            members.append("alignas(%d) uint32_t %s;" % (e, m) if not packed else "uint32_t %s;" % m)
            fill.append("{ uint32_t y_ = (uint32_t)s.next(); x.%s = y_; }" % m)
            same.append("a.%s == b.%s" % (m, m))
    al = rng.choice([0, 0, 0, 2, 4, 8, 16, 32, 64, 128, 256])
    # (alignas must not be weaker than the members': use it only where it is certain to be stronger)
    head = "struct %s%s%s" % ("alignas(%d) " % al if al >= 256 or (packed and al >= 1) else "", "__attribute__((packed)) " if packed else "", name)
    body = members + ["%s() {}" % name, "%s(%s const&) = default;" % (name, name), "%s& operator=(%s const&) = default;" % (name, name)] + hostile(rng, name)
    return name, "%s {\n    %s\n};" % (head, "\n    ".join(body)), name, fill, " && ".join("(%s)" % x for x in same), True


def raw(rng, i):
    """so many bytes, aligned like that"""
    name = "B%d" % i
    n, al = a_size(rng), rng.choice([1, 1, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512])
    body = ["unsigned char b[%d];" % n]
    if rng.random() < 0.6:
        body += ["%s() {}" % name, "%s(%s const&) = default;" % (name, name), "%s& operator=(%s const&) = default;" % (name, name)] + hostile(rng, name)
    return name, "struct alignas(%d) %s {\n    %s\n};" % (al, name, "\n    ".join(body)), "%d bytes aligned to %d" % (n, al), ["s.bytes(x.b, sizeof x.b);"], "elems::same_bytes(a.b, b.b, sizeof a.b)", True


def selfish(rng, i):
    """knows its own address, so it must be copied, assigned and destroyed properly"""
    name = "O%d" % i
    n, al = a_size(rng) % 5000 + 1, rng.choice([1, 8, 8, 16, 32, 64, 128, 256])
    al = max(al, 8)
    body = ["%s* self; unsigned char b[%d];" % (name, n),
            "bool ok() const { return self == this; }",
            "%s() : self(this) { std::memset(b, 0, sizeof b); ++elems::live; }" % name,
            "%s(%s const& o) : self(this) { if (!o.ok()) std::abort(); std::memcpy(b, o.b, sizeof b); ++elems::live; }" % (name, name),
            "%s& operator=(%s const& o) { if (!ok() || !o.ok()) std::abort(); std::memmove(b, o.b, sizeof b); return *this; }" % (name, name),
            "~%s() { if (!ok()) std::abort(); self = nullptr; std::memset(b, 0xee, sizeof b); --elems::live; }" % name]
    body += [h for h in hostile(rng, name) if "operator&" not in h]
    return name, "struct alignas(%d) %s {\n    %s\n};" % (al, name, "\n    ".join(body)), "%d bytes aligned to %d with an observed life cycle" % (n, al), ["s.bytes(x.b, sizeof x.b);"], "a.ok() && b.ok() && elems::same_bytes(a.b, b.b, sizeof a.b)", False


def library(rng, i):
    alias = "L%d" % i
    k = rng.choice([1, 3, 15, 16, 17, 40, 200])
    t, fill, q = rng.choice([
        ("std::string", "x.clear(); for (int i = 0; i != %d; ++i) x.push_back((char)s.next());" % k, False),
        ("std::vector< short >", "x.clear(); for (int i = 0; i != %d; ++i) x.push_back((short)s.next());" % k, False),
        ("std::shared_ptr< long >", "static std::shared_ptr< long > p_[256]; auto& e_ = p_[s.next() & 255]; if (!e_) e_ = std::make_shared< long >(1); x = e_;", False),
        ("std::complex< float >", "s.bytes(&x, 8);", True),
        ("std::array< uint16_t, %d >" % k, "s.bytes(x.data(), sizeof x);", True),
        ("std::pair< std::string, int >", "x.first.assign(%d, (char)s.next()); x.second = (int)s.next();" % k, False),
        ("std::pair< char, double >", "x.first = (char)s.next(); x.second = (double)s.next();", False),
        ("Enum", "x = (Enum)s.next();", True),
        ("Union", "s.bytes(&x, sizeof x);", True),
    ])
    same = "elems::same_bytes(&a, &b, sizeof a)" if q else "a == b"
    return alias, "typedef %s %s;" % (t, alias), t, [fill], same, q


def unit(seed, part, mean, ntypes=6):
    rng = random.Random("%d/%d/%d" % (seed, part, mean))
    HOSTILE[0] = mean
    out = ["// element types %d/%d" % (seed, part), '#include "%s"' % os.path.join(build.VERIF, "harness", "elems.hpp"), "#include <cstdlib>", "#include <initializer_list>", "namespace {",
           "struct Some { int i; void f() {} };", "struct Anything { template < class U > Anything(U const&) {} };", "enum class Enum : unsigned short { a, b };", "union Union { double d; char c[24]; };"]
    traits, use = [], []
    for i in range(ntypes):
        name, decl, shown, fill, same, q = rng.choice([scalar, record, record, raw, raw, raw, selfish, library])(rng, i)
        # a type of its own even for built-in ones would change nothing: traits are keyed by a tag only for the harness
        out.append(decl)
        traits.append((name, shown, fill, same))
        use.append((name, q))
    out.append("}")
    out.append("namespace elems {")
    seen = {}
    body = []
    for (name, shown, fill, same), (n2, q) in zip(traits, use):
        if name[0] in "SL":
            if shown in seen:
                continue
            seen[shown] = 1
        body.append("template <> struct Tr< %s > {\n    static const char* name() { return \"%s\"; }\n    static void fill(%s& x, Stream s) { (void)s; %s }\n    static bool same(%s const& a, %s const& b) { return %s; }\n};" % (name, shown, name, " ".join(fill), name, name, same))
        body.append("ELEMENT(%s, %s);" % (name, "true" if q else "false"))
    out += body + ["}"]
    flags = [rng.choice(["-O0", "-O1", "-O2", "-O3"]), rng.choice(["-std=c++17", "-std=c++20", "-std=gnu++17"])]
    if rng.random() < 0.2:
        flags.append("-DNDEBUG")
    return "\n".join(out) + "\n", flags


def binary(seed, mean=False, parts=8):
    """registers (and writes the sources of) the binary elems_<seed> or, with hostile members, elemsh_<seed>"""
    name = "elems%s_%d" % ("h" if mean else "", seed)
    d = os.path.join(build.BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    tus = [("harness/elems.cpp", [])]
    for p in range(parts):
        text, flags = unit(seed, p, mean)
        path = os.path.join(d, "%s-%d-%s.cpp" % (name, p, hashlib.sha256(text.encode()).hexdigest()[:12]))
        if not os.path.exists(path):
            with open(path + ".%d" % os.getpid(), "w") as f:
                f.write(text)
            os.rename(path + ".%d" % os.getpid(), path)
        tus.append((path, flags))
    build.BINARIES[name] = build.seq(*tus)
    return name


def register(name):
    """binaries that are named in replay files"""
    m = re.match(r"elems(h?)_(\d+)$", name)
    if m and name not in build.BINARIES:
        binary(int(m.group(2)), bool(m.group(1)))


def element_types(quick, thorough, cases, mean=False):
    """a plan step: so many binaries of generated element types, so many cases for each"""
    def run(prop, tier, seed, outdir, known):
        import check
        total = None
        for k in range(quick if tier == "quick" else thorough):
            name = binary(seed * 100 + k, mean)
            try:
                built = build.build([name])
            except build.CompileError as e:
                path = check.compile_violation(prop, e, outdir)
                r = {"binary": name, "scenario": "element_types", "rule": "", "evaluations": 0, "distinct_nontrivial": 0, "samples": [],
                     "violations": [{"signature": "does-not-compile", "message": check.first_error(e.text), "replay": path}]}
            else:
                r = check.run_pbt(prop, tier, seed, outdir, known, built, 500 + k, name, "element_types", cases, cases, {})
            if total is None:
                total = r
            else:
                for key in ("evaluations", "distinct_nontrivial", "nontrivial", "wall_s"):
                    total[key] = total.get(key, 0) + r.get(key, 0)
                total["violations"] += r["violations"]
                total["samples"] = total["samples"][:2] + r["samples"][:1]
                total["binary"] += " " + name
                if r.get("error"):
                    total["error"] = r["error"]
            if total["violations"] or total.get("error"):
                break
            os.unlink(built[name])
        return total
    return run
