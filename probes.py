"""Generated programs (C18, parts of C17): draws configurations and call sequences, writes C++ programs with the expected results worked
out by a model, compiles them with a drawn compiler, language level and set of defines, and runs them. Programs with an invalid
configuration have to be rejected while their valid twin compiles."""
import concurrent.futures, hashlib, os, random, re, shutil, subprocess, tempfile, time
import build

VERIF = os.path.dirname(os.path.abspath(__file__))
COMPILERS = {"g++": ["c++11", "c++14", "c++17", "c++20", "c++23", "gnu++17"], "clang++": ["c++11", "c++14", "c++17", "c++20", "c++23", "gnu++20"]}
DCAS = build.DCAS
BATOMIC = build.BATOMIC
JOBS = os.cpu_count() or 8

TRIVIAL = ["int", "unsigned char", "double", "long long", "Pod", "Big", "int*", "Color", "bool"]
COPYABLE = ["std::string", "std::shared_ptr< int >", "NoDefault"]
OVERALIGNED = ["Al"]


class Config:
    """one container configuration with a call sequence and the expected results"""

    def __init__(self, rng, std, bip=False):
        self.rng = rng
        self.bip = False
        cxx17 = std[-2:] in ("17", "20", "23")
        self.kind = rng.choice(["queue", "stack", "spsc_queue"])
        types = TRIVIAL + (COPYABLE if self.kind != "queue" else []) + (OVERALIGNED if cxx17 else [])
        self.T = rng.choice(types)
        self.mode = rng.choice(["ctime", "runtime"] if self.kind == "spsc_queue" else ["ctime", "fixed", "node"])
        opts = []
        self.n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64]) if rng.random() < 0.7 else rng.randint(1, 300)
        if self.kind == "stack" and self.mode == "ctime":
            self.n = max(1, self.n)
        self.alloc = None
        if self.mode == "ctime":
            opts.append("capacity< %d >" % self.n)
            if self.kind != "spsc_queue" and rng.random() < 0.3:
                opts.append("fixed_sized< true >")
        if self.mode == "fixed":
            opts.append("fixed_sized< true >")
        if self.mode == "node" and rng.random() < 0.4:
            opts.append("fixed_sized< false >")
        if (self.mode != "ctime" or self.kind != "spsc_queue") and rng.random() < 0.65:
            of = rng.choice([self.T, "char", "int", "std::string", "long double"])
            if bip and self.T not in OVERALIGNED and rng.random() < 0.6:
                self.alloc = "bip::allocator< %s, bip::managed_heap_memory::segment_manager >" % of
                self.bip = True
            elif self.T in OVERALIGNED or rng.random() < 0.6:
                self.alloc = "Count< %s >" % of
            elif rng.random() < 0.7 or not cxx17:
                self.alloc = "std::allocator< %s >" % of
            else:
                self.alloc = "std::pmr::polymorphic_allocator< %s >" % of
            opts.append("allocator< %s >" % self.alloc)
        rng.shuffle(opts)
        self.opts = opts
        self.type = "blf::%s< %s >" % (self.kind, ", ".join([self.T] + ["blf::" + o for o in opts]))
        self.used = set()
        self.lines = self.body(cxx17)

    def describe(self):
        return "%s (n=%d): %s" % (self.type.replace("blf::", ""), self.n, " ".join(sorted(self.used)))

    # -- the program
    def body(self, cxx17):
        r, T, k = self.rng, self.T, self.kind
        L = []
        counting = self.alloc and self.alloc.startswith("Count")
        L.append("typedef %s C;" % self.type)
        L.append("typedef %s T;" % T)
        L.append("typedef Mk< T > M;")
        L.append('static_assert(std::is_same< C::value_type, T >::value, "value_type");')
        L.append('static_assert(!std::is_copy_constructible< C >::value && !std::is_copy_assignable< C >::value, "copying");')
        L.append("global_tally = Tally();")
        L.append("Tally own = Tally(); (void)own;")
        give = False
        if self.alloc and (self.bip or r.random() < 0.6):
            give = True
        if self.bip:
            L.append("std::size_t const free_memory = heap().get_free_memory();")
        expr = "%s(&own)" % self.alloc if counting else "%s(heap().get_segment_manager())" % self.alloc if self.bip else "%s()" % self.alloc
        if self.mode == "ctime":
            if give:
                a = expr
                ctor = "C::allocator(%s)" % a
                self.used.add("ctor(alloc)")
            else:
                ctor = None
                self.used.add("ctor()")
            L.append('static_assert(sizeof(C) >= %d * sizeof(T), "storage inside the object");' % self.n)
        else:
            if give:
                a = expr
                conv = "C::allocator(%s)" % a if k != "spsc_queue" else a
                ctor = "%d, %s" % (self.n, conv)
                self.used.add("ctor(n,alloc)")
            else:
                ctor = "%d" % self.n
                self.used.add("ctor(n)")
        heap = self.n * 200 > 60000 or r.random() < 0.2
        L.append("{")
        if heap and (cxx17 or self.mode != "ctime"):
            L.append("std::unique_ptr< C > pc(new C%s);" % ("(" + ctor + ")" if ctor else ""))
            L.append("C& c = *pc;")
        else:
            L.append("C c%s;" % ("((" + ctor + "))" if ctor and "," not in ctor and self.mode == "ctime" else "(" + ctor + ")" if ctor else ""))
        L.append("C const& cc = c; (void)cc;")
        tally = "own" if give else "global_tally"
        if counting:
            if self.mode == "ctime":
                L.append("CK(own.allocs == 0 && global_tally.allocs == 0);")
            else:
                if self.n:
                    L.append("CK(%s.allocs > 0);" % tally)
                L.append("CK(%s.allocs == 0);" % ("global_tally" if give else "own"))
                L.append("long const allocs = %s.allocs; (void)allocs;" % tally)
        L.append("CK(cc.is_lock_free() == %s);" % ("NODE_LOCK_FREE" if self.mode == "node" else "true"))
        self.used.add("is_lock_free")
        self.q = []
        self.next = 1
        self.nodes_min = self.n  # node based: at least this many elements fit without allocation
        self.exact = True        # node based: bounded results still exactly known
        self.grown = 0
        self.peak = 0
        self.reserved = 0
        for _ in range(r.randint(6, 22)):
            self.step(L)
        # fill up, drain
        if r.random() < 0.7:
            self.fill(L)
        self.drain(L)
        if counting and self.mode in ("fixed", "runtime"):
            L.append("CK(%s.allocs == allocs);" % tally)
        if counting and self.mode == "ctime":
            L.append("CK(own.allocs == 0 && global_tally.allocs == 0);")
        if counting and self.mode == "node" and self.peak <= self.n and not self.reserved:
            L.append("CK(%s.allocs == allocs);" % tally)
        for _ in range(r.randint(0, min(3, self.n))):
            self.push_one(L)
        L.append("}")
        if self.bip:
            L.append("CK(heap().get_free_memory() == free_memory);")
        L.append("CK(own.live == 0 && own.bytes == 0 && global_tally.live == 0 && global_tally.bytes == 0);")
        return L

    def lit(self, i):
        return "M::make(%d)" % i

    def fresh(self):
        i = self.next
        self.next += 1
        return i % 2 if self.T == "bool" else i % 120 + 1

    def cap(self):
        return None if self.mode == "node" else self.n

    def room(self):
        return 10 ** 9 if self.mode == "node" else self.n - len(self.q)

    def take(self):
        return self.q.pop() if self.kind == "stack" else self.q.pop(0)

    def top(self):
        return self.q[-1] if self.kind == "stack" else self.q[0]

    def add(self, i):
        self.q.append(i)
        self.peak = max(self.peak, len(self.q))

    def push_one(self, L, how=None):
        v = self.fresh()
        hows = ["push", "push_ref"] if self.kind == "spsc_queue" else ["push", "push_ref", "bounded_push", "unsynchronized_push"]
        how = how or self.rng.choice(hows)
        ok = self.room() > 0
        if how == "bounded_push" and self.mode == "node" and not (len(self.q) < self.n):
            how = "push"  # whether there is a free node depends on the history
        name = "push" if how == "push_ref" else how
        if how == "push_ref":
            L.append("{ T const x = %s; CK(c.push(x) == %s); }" % (self.lit(v), str(ok).lower()))
        else:
            L.append("CK(c.%s(%s) == %s);" % (name, self.lit(v), str(ok).lower()))
        self.used.add(name)
        if ok:
            self.add(v)

    def fill(self, L):
        target = self.n if self.mode != "node" else self.n + self.rng.randint(1, 4)
        todo = target - len(self.q)
        if todo > 0:
            vs = [self.fresh() for _ in range(todo)]
            L.append("{ int const v[] = { %s }; for (int i : v) CK(c.push(M::make(i))); }" % ", ".join(map(str, vs)))
            for v in vs:
                self.add(v)
        if self.mode != "node":
            for how in (["push"] if self.kind == "spsc_queue" else ["push", "bounded_push", "unsynchronized_push"]):
                self.push_one(L, how)
            if self.kind == "spsc_queue":
                L.append("CK(cc.write_available() == 0 && cc.read_available() == %d);" % self.n)

    def drain(self, L):
        if not self.q:
            return
        order = list(reversed(self.q)) if self.kind == "stack" else list(self.q)
        how = self.rng.choice(["pop", "consume_all"])
        if how == "pop":
            L.append("{ int const v[] = { %s }; T x = M::make(0); for (int i : v) CK(c.pop(x) && M::eq(x, i)); CK(!c.pop(x)); }" % ", ".join(map(str, order)))
        else:
            L.append("{ Seen< T > s { %s }; CK(c.consume_all(s) == %d && s.done()); }" % (", ".join(map(str, order)), len(order)))
        self.q = []
        self.used.add(how)

    def functor(self, L, call, order, result, want):
        """call with one of the functor forms"""
        form = self.rng.choice(["functor", "const functor", "lambda", "temporary", "function"])
        init = "Seen< T > s { %s };" % ", ".join(map(str, order)) if order else "Seen< T > s({});"
        if order and len(order) == 1:
            init = "Seen< T > s(std::initializer_list< int > { %d });" % order[0]
        if not order:
            init = "Seen< T > s((std::initializer_list< int >()));"
        if form == "functor":
            b = "%s CK(c.%s(s) == %s && s.done());" % (init, call, want)
        elif form == "const functor":
            b = "%s ConstSeen< T > const f = { &s }; CK(c.%s(f) == %s && s.done());" % (init, call, want)
        elif form == "lambda":
            b = "%s auto f = [&](T const& x) { s.take(x); }; CK(c.%s(f) == %s && s.done());" % (init, call, want)
        elif form == "temporary":
            b = "%s CK(c.%s([&](T x) { s.take(x); }) == %s && s.done());" % (init, call, want)
        else:
            b = "%s seen_by_function< T >() = &s; CK(c.%s(function< T >) == %s && s.done());" % (init, call, want)
        L.append("{ " + b + " }")
        self.used.add(call + "/" + form)

    def step(self, L):
        r, k = self.rng, self.kind
        ops = ["push1", "push1", "push1", "pop", "pop", "popU", "consume_one", "consume_all", "empty"]
        if k != "spsc_queue":
            ops += ["unsync_pop", "unsync_popU"]
            if self.mode == "node":
                ops += ["reserve"]
        if k == "stack":
            ops += ["range", "range", "consume_all_atomic", "consume_all_atomic_reversed"]
        if k == "spsc_queue":
            ops += ["range", "range_ptr", "range_array", "pop_void", "pop_ptr", "pop_array", "pop_it", "avail", "front", "reset"]
        op = r.choice(ops)
        has = bool(self.q)
        if op == "push1":
            return self.push_one(L)
        if op in ("pop", "unsync_pop"):
            f = "pop" if op == "pop" else "unsynchronized_pop"
            self.used.add(f)
            if has:
                L.append("{ T x = M::make(0); CK(c.%s(x) && M::eq(x, %d)); }" % (f, self.take()))
            else:
                L.append("{ T x = M::make(0); CK(!c.%s(x)); }" % f)
        elif op in ("popU", "unsync_popU"):
            f = "pop" if op == "popU" else "unsynchronized_pop"
            self.used.add(f + "<U>")
            if has:
                L.append("{ From< T > x(M::make(0)); CK(c.%s(x) && M::eq(x.v, %d)); }" % (f, self.take()))
            else:
                L.append("{ From< T > x(M::make(0)); CK(!c.%s(x)); }" % f)
        elif op == "consume_one":
            self.functor(L, "consume_one", [self.take()] if has else [], None, str(has).lower())
        elif op.startswith("consume_all"):
            order = list(self.q)
            if k == "stack" and not op.endswith("reversed"):
                order.reverse()
            self.q = []
            self.functor(L, op, order, None, str(len(order)))
        elif op == "empty":
            L.append("CK(c.empty() == %s);" % str(not has).lower())
            self.used.add("empty")
        elif op == "reserve":
            m = r.randint(0, 4)
            L.append("c.%s(%d);" % (r.choice(["reserve", "reserve_unsafe"]), m))
            self.reserved += m
            self.used.add("reserve")
        elif op == "range":
            m = r.randint(0, 5)
            vs = [self.fresh() for _ in range(m)]
            took = min(m, max(0, self.room()))
            f = "push"
            if k == "stack":
                f = r.choice(["push", "bounded_push", "unsynchronized_push"])
                if f == "bounded_push" and self.mode == "node" and len(self.q) + m > self.n:
                    f = "push"
            cont = r.choice(["std::vector< T >", "std::list< T >"])
            it = "b.begin(), b.end()" if r.random() < 0.5 else "b.cbegin(), b.cend()"
            if self.T == "bool":
                cont = "std::list< T >"
            fill = " ".join("b.push_back(%s);" % self.lit(v) for v in vs)
            L.append("{ %s b; %s CK(std::distance(b.%s, c.%s(%s)) == %d); }" % (cont, fill, "begin()" if "cbegin" not in it else "cbegin()", f, it, took))
            self.used.add(f + "(range)")
            for v in vs[:took]:
                self.add(v)
        elif op in ("range_ptr", "range_array"):
            m = r.randint(1, 5)
            vs = [self.fresh() for _ in range(m)]
            took = min(m, self.room())
            arg = "b, %d" % m if op == "range_ptr" else "b"
            L.append("{ T const b[] = { %s }; CK(c.push(%s) == %d); }" % (", ".join(map(self.lit, vs)), arg, took))
            self.used.add("push(pointer)" if op == "range_ptr" else "push(array)")
            for v in vs[:took]:
                self.add(v)
        elif op == "pop_void":
            L.append("CK(c.pop() == %s);" % str(has).lower())
            if has:
                self.take()
            self.used.add("pop()")
        elif op in ("pop_ptr", "pop_array", "pop_it"):
            m = r.randint(1, 5)
            got = [self.take() for _ in range(min(m, len(self.q)))] if op != "pop_it" else None
            if op == "pop_it":
                got, self.q = self.q, []
                if self.T == "bool":
                    L.append("{ std::list< T > b; CK(c.pop(std::back_inserter(b)) == %d);" % len(got))
                    L.append("std::vector< T > e = { %s }; CK(b == std::list< T >(e.begin(), e.end())); }" % ", ".join(map(self.lit, got)))
                else:
                    L.append("{ std::vector< T > b; CK(c.pop(std::back_inserter(b)) == %d && b.size() == %d);" % (len(got), len(got)))
                    for j, v in enumerate(got):
                        L.append("CK(M::eq(b[%d], %d));" % (j, v))
                    L.append("}")
                self.used.add("pop(output iterator)")
            else:
                z = ", ".join([self.lit(0)] * m)
                arg = "b, %d" % m if op == "pop_ptr" else "b"
                L.append("{ T b[] = { %s }; CK(c.pop(%s) == %d);" % (z, arg, len(got)))
                for j, v in enumerate(got):
                    L.append("CK(M::eq(b[%d], %d));" % (j, v))
                L.append("}")
                self.used.add("pop(pointer)" if op == "pop_ptr" else "pop(array)")
        elif op == "avail":
            L.append("CK(cc.read_available() == %d && cc.write_available() == %d);" % (len(self.q), self.n - len(self.q)))
            self.used.add("read_available write_available")
        elif op == "front":
            if has:
                L.append("CK(M::eq(%s.front(), %d));" % (r.choice(["c", "cc"]), self.q[0]))
                self.used.add("front")
        elif op == "reset":
            L.append("c.reset(); CK(c.empty());")
            self.q = []
            self.used.add("reset")


HEADERS = ["queue.hpp", "stack.hpp", "spsc_queue.hpp", "policies.hpp", "lockfree_forward.hpp"]


def program_text(configs, headers, defines_dcas, batomic):
    out = ["#include <boost/lockfree/%s>" % h for h in headers]
    if any(c.bip for i, c in configs):
        out.append("#include <boost/interprocess/managed_heap_memory.hpp>\n#include <boost/interprocess/allocators/allocator.hpp>\nnamespace bip = boost::interprocess;")
        out.append("static bip::managed_heap_memory& heap() { static bip::managed_heap_memory m(1 << 20); return m; }")
    out.append('#include "probe.hpp"')
    if batomic:
        out.append("#include <boost/atomic.hpp>\nnamespace at = boost;")
    else:
        out.append("#include <atomic>\nnamespace at = std;")
    out.append("#if __cplusplus >= 201703L\n#include <memory_resource>\n#endif")
    out.append("namespace blf = boost::lockfree;")
    out.append("Tally global_tally;")
    if defines_dcas:
        out.append("static at::atomic< Dw > lock_free_probe;\n#define NODE_LOCK_FREE lock_free_probe.is_lock_free()")
    else:
        out.append("#define NODE_LOCK_FREE true")
    for i, c in configs:
        out.append("#undef CFG\n#define CFG %d" % i)
        out.append("static int config_%d()\n{" % i)
        out += ["    " + x for x in c.lines]
        out.append("    return 0;\n}")
    out.append("#ifdef BOOST_NO_EXCEPTIONS\nnamespace boost {\nvoid throw_exception(std::exception const&) { std::abort(); }")
    out.append("void throw_exception(std::exception const&, boost::source_location const&) { std::abort(); }\n}\n#endif")
    out.append("int other();")
    out.append("int main()\n{\n    int r = other();")
    for i, c in configs:
        out.append("    r |= config_%d();" % i)
    out.append("    return r;\n}")
    return "\n".join(out) + "\n"


OTHER = """%s
int other()
{
    boost::lockfree::queue< int, boost::lockfree::capacity< 3 > > q;
    boost::lockfree::stack< int, boost::lockfree::fixed_sized< true > > s(2);
    boost::lockfree::spsc_queue< int > p(2);
    int x = 0;
    return q.push(7) && q.pop(x) && x == 7 && s.push(8) && s.pop(x) && x == 8 && p.push(9) && p.pop(x) && x == 9 ? 0 : 1;
}
"""


def env_draw(rng):
    cc = rng.choice(["g++", "clang++"])
    std = rng.choice(COMPILERS[cc])
    v = rng.random()
    defs, dcas, bat = [], False, False
    if v < 0.2:
        defs, dcas = list(DCAS), True
    elif v < 0.4:
        defs, bat = list(BATOMIC), True
    flags = ["-std=" + std, rng.choice(["-O0", "-O0", "-O0", "-O1"]), "-w"]
    if rng.random() < 0.15:
        flags.append("-DNDEBUG")
    if rng.random() < 0.3:
        flags += ["-fsanitize=undefined", "-fno-sanitize-recover=all"]
        if std[-2:] in ("11", "14"):
            flags.append("-fno-sanitize=alignment")  # std::allocator ignores the nodes' over-alignment before C++17
    if dcas:
        flags.append("-mcx16")
    return cc, std, flags + defs, dcas, bat


def run_program(cc, flags, text, other, tmp):
    """None if it compiles, runs and finds nothing wrong, else (kind, message)"""
    src, o2, exe = os.path.join(tmp, "p.cpp"), os.path.join(tmp, "other.cpp"), os.path.join(tmp, "p")
    with open(src, "w") as f:
        f.write(text)
    with open(o2, "w") as f:
        f.write(other)
    cmd = [cc] + flags + ["-I" + build.INC, "-I" + os.path.join(VERIF, "harness"), src, o2, "-o", exe, "-latomic"]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        if "error:" not in r.stderr and "undefined reference" not in r.stderr and "multiple definition" not in r.stderr:
            raise RuntimeError("compiler failed: " + r.stderr[-1000:])
        m = re.search(r"^.*(?:error:|undefined reference|multiple definition).*$", r.stderr, re.M)
        return ("does-not-compile", (m.group(0) if m else r.stderr)[:400])
    try:
        p = subprocess.run([exe], capture_output=True, text=True, errors="replace", timeout=60)
    except subprocess.TimeoutExpired:
        return ("hang", "the program does not end")
    if p.returncode != 0:
        return ("wrong-result", (p.stdout.strip() or p.stderr.strip() or "ended with %d" % p.returncode)[:400])
    return None


def one_program(seed, index, nconf):
    rng = random.Random("c18-%d-%d" % (seed, index))
    cc, std, flags, dcas, bat = env_draw(rng)
    headers = HEADERS[:]
    rng.shuffle(headers)
    bip = rng.random() < 0.2
    configs = [(i, Config(rng, std, bip)) for i in range(nconf)]
    if any(c.bip for i, c in configs):
        if "-fsanitize=undefined" in flags:
            flags.append("-fno-sanitize=alignment")  # these allocators do not know over-alignment
    elif rng.random() < 0.15:
        flags += ["-fno-exceptions", "-DBOOST_NO_EXCEPTIONS"]
    tail = HEADERS[:]
    rng.shuffle(tail)
    other = OTHER % "\n".join("#include <boost/lockfree/%s>" % h for h in tail)
    tmp = tempfile.mkdtemp(prefix="vp18-")
    try:
        bad = run_program(cc, flags, program_text(configs, headers, dcas, bat), other, tmp)
        if bad:
            # shrink: a single configuration, then fewer flags, then fewer statements
            def fails(cs, hs, fl):
                return run_program(cc, fl, program_text(cs, hs, dcas, bat), other, tmp)
            for c in configs:
                b = fails([c], headers, flags)
                if b:
                    configs, bad = [c], b
                    break
            for f in [x for x in flags if x not in DCAS + BATOMIC + ["-fno-sanitize=alignment", "-DBOOST_NO_EXCEPTIONS"] and not x.startswith("-std") and x not in ("-w", "-mcx16")]:
                fl = [x for x in flags if x != f]
                b = fails(configs, headers, fl)
                if b:
                    flags, bad = fl, b
            if len(configs) == 1:
                c = configs[0][1]
                if bad[0] == "does-not-compile":
                    i = 0
                    while i < len(c.lines):
                        l = c.lines[i]
                        # only drop whole statements that nothing else needs
                        if l.count("{") == l.count("}") and not l.startswith(("typedef", "C ", "C&", "C const", "Tally", "long const", "std::unique")):
                            save = c.lines[:]
                            del c.lines[i]
                            b = fails(configs, headers, flags)
                            if b and b[0] == "does-not-compile":
                                bad = b
                                continue
                            c.lines[:] = save
                        i += 1
            return dict(bad=bad, cc=cc, flags=flags, text=program_text(configs, headers, dcas, bat), other=other, configs=configs)
        return dict(bad=None, configs=configs, env="%s %s" % (cc, " ".join(flags)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_replay(prop, outdir, kind, r):
    body = "kind probe\nproperty %s\nprobe %s\ncompiler %s\nflags %s\nmessage %s\n==== p.cpp\n%s==== other.cpp\n%s" % (
        prop, kind, r["cc"], " ".join(r["flags"]), r["bad"][1].replace("\n", " | "), r["text"], r["other"])
    path = os.path.join(outdir, "%s-%s-%s.replay" % (prop, kind, hashlib.sha256(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write("# python3 /verif/check.py --replay %s\n%s" % (path, body))
    return path


def replay(path, text):
    if re.search(r"^kind compile", text, re.M):
        cmd = re.search(r"^command (.*)$", text, re.M).group(1).split()
        cmd = [("-I" + build.INC) if c.startswith("-I") and c.endswith("/include") else c for c in cmd]
        r = subprocess.run(cmd + ["-o", "/dev/null"], capture_output=True, text=True)
        print(r.stderr[:3000])
        print("replay: " + ("FAILS: does not compile" if r.returncode else "passes"))
        return 1 if r.returncode else 0
    kind = re.search(r"^probe (\S+)", text, re.M).group(1)
    cc = re.search(r"^compiler (\S+)", text, re.M).group(1)
    flags = re.search(r"^flags (.*)$", text, re.M).group(1).split()
    src, other = re.search(r"^==== p.cpp\n(.*?)==== other.cpp\n(.*)", text, re.M | re.S).groups()
    tmp = tempfile.mkdtemp(prefix="vp18-")
    try:
        if kind == "program":
            bad = run_program(cc, flags, src, other, tmp)
            print("replay: " + ("FAILS: [%s] %s" % bad if bad else "passes"))
            return 1 if bad else 0
        acc = accepts(cc, flags, src, tmp)
        print("replay: " + ("FAILS: the invalid program compiles" if acc else "passes (the program is rejected)"))
        return 1 if acc else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def generated_programs(quick, thorough, nconf=8):
    def step(prop, tier, seed, outdir, known):
        t0 = time.time()
        n = max(1, int((quick if tier == "quick" else thorough) * float(os.environ.get("VERIF_SCALE", "1"))))
        res = {"scenario": "generated_programs", "binary": "probes", "rule": "a configuration whose generated program used at least five different members; distinct by configuration and members",
               "violations": [], "samples": [], "evaluations": 0, "distinct_nontrivial": 0}
        seen, labels = set(), {}
        limit = t0 + (300 if tier == "quick" else 3000)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            todo = iter(range(n))
            running = set()
            stop = False
            while True:
                while not stop and len(running) < JOBS:
                    i = next(todo, None)
                    if i is None or time.time() > limit:
                        stop = True
                        break
                    running.add(ex.submit(one_program, seed, i, nconf))
                if not running:
                    break
                done, running = concurrent.futures.wait(running, return_when=concurrent.futures.FIRST_COMPLETED)
                for f in done:
                    r = f.result()
                    if r["bad"]:
                        if not any(v["message"] == r["bad"][1] for v in res["violations"]):
                            res["violations"].append({"signature": r["bad"][0], "message": "a program with %s: %s" % (r["configs"][0][1].type.replace("blf::", ""), r["bad"][1]),
                                                      "replay": write_replay(prop, outdir, "program", r)})
                        stop = True
                        continue
                    for _, c in r["configs"]:
                        res["evaluations"] += 1
                        d = c.describe()
                        if len(c.used) >= 5:
                            seen.add(d)
                        for u in c.used:
                            labels[c.kind + ": " + u] = labels.get(c.kind + ": " + u, 0) + 1
                        if len(res["samples"]) < 6:
                            res["samples"].append(r["env"] + " | " + d)
        res["distinct_nontrivial"] = len(seen)
        res["labels"] = labels
        res["wall_s"] = round(time.time() - t0, 2)
        return res
    return step


# ---- programs that have to be rejected

def accepts(cc, flags, text, tmp):
    src = os.path.join(tmp, "r.cpp")
    with open(src, "w") as f:
        f.write(text)
    r = subprocess.run([cc] + flags + ["-I" + build.INC, "-I" + os.path.join(VERIF, "harness"), "-fsyntax-only", src], capture_output=True, text=True, errors="replace")
    if r.returncode == 0:
        return True
    if "error:" not in r.stderr:
        raise RuntimeError("compiler failed: " + r.stderr[-1000:])
    return False


REJ = """#include <boost/lockfree/queue.hpp>
#include <boost/lockfree/stack.hpp>
#include <boost/lockfree/spsc_queue.hpp>
#include "probe.hpp"
namespace blf = boost::lockfree;
struct Dtor { int a; ~Dtor() { a = 0; } };
struct Assign { int a; Assign& operator=(Assign const& o) { a = o.a + 1; return *this; } Assign() : a(0) {} Assign(Assign const&) = default; };
struct MoveOnly { int a; MoveOnly() : a(0) {} MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
struct Member { std::string s; };
void use()
{
    %s
}
"""


def big(rng, lo):
    """a capacity above the limit, biased to where truncation or overflow would hide it"""
    k = rng.randrange(6)
    if k == 0:
        return lo + rng.randint(0, 3)
    if k == 1:
        return 65536 * rng.randint(1, 5) + rng.randint(lo - 65535, 9)
    if k == 2:
        return (1 << 32) * rng.randint(1, 4) + rng.randint(0, 70)
    if k == 3:
        return (1 << 64) - 1 - rng.randint(0, 3)
    if k == 4:
        return (1 << rng.randint(17, 63)) + rng.randint(0, 9)
    return rng.randint(lo, 200000)


def shuffled(rng, T, opts):
    rng.shuffle(opts)
    return ", ".join([T] + opts)


def reject_case(rng, only, i):
    """(statement that must not compile, its valid twin, description)"""
    cap = lambda n: "blf::capacity< %dull >" % n
    extra = lambda: (["blf::fixed_sized< true >"] if rng.random() < 0.3 else []) + (["blf::allocator< std::allocator< int > >"] if rng.random() < 0.3 else [])
    kinds = ["queue-cap", "stack-cap", "spsc-cap"] if only == "C17" else ["spsc-alloc", "q-dtor", "q-assign", "q-member", "move-only", "ctor", "pop-convert", "ctor", "pop-convert"]
    k = rng.choice(kinds)
    edge = only == "C17" and i < 4  # the first cases: the smallest capacity that is too big
    if edge:
        k = kinds[i % 2]
    if k == "queue-cap":
        n, e = 65535 if edge else big(rng, 65535), extra()
        return "blf::queue< %s > c; c.push(1);" % shuffled(rng, "int", [cap(n)] + e), "blf::queue< %s > c; c.push(1);" % shuffled(rng, "int", [cap(65534)] + e), "queue of capacity %d" % n
    if k == "stack-cap":
        n, e = 65536 if edge else big(rng, 65536), extra()
        return "blf::stack< %s > c; c.push(1);" % shuffled(rng, "int", [cap(n)] + e), "blf::stack< %s > c; c.push(1);" % shuffled(rng, "int", [cap(65534)] + e), "stack of capacity %d" % n
    if k == "spsc-cap":
        T, size = rng.choice([("char", 1), ("int", 4), ("double", 8), ("Pod", 12)])
        n = rng.choice([(1 << 64) - 1 - rng.randint(0, 2), (1 << 64) // size - 1 + rng.randint(0, 3), ((1 << 64) // size) * rng.randint(1, max(1, size - 1)) + rng.randint(0, 3)])
        n = min(n, (1 << 64) - 1)
        return "blf::spsc_queue< %s, %s > c; c.push(Mk< %s >::make(1));" % (T, cap(n), T), "blf::spsc_queue< %s, %s > c; c.push(Mk< %s >::make(1));" % (T, cap(100000), T), "spsc_queue<%s> of capacity %d" % (T, n)
    if k == "spsc-alloc":
        a = "blf::allocator< %s >" % rng.choice(["std::allocator< int >", "Count< int >"])
        n = rng.randint(1, 1000)
        return "blf::spsc_queue< %s > c; c.push(1);" % shuffled(rng, "int", [cap(n), a]), "blf::spsc_queue< int, %s > c; c.push(1);" % cap(n), "spsc_queue with capacity and allocator"
    mode = rng.choice([[cap(rng.randint(1, 99))], [], ["blf::fixed_sized< true >"]])
    arg = "" if mode and "capacity" in mode[0] else "(%d)" % rng.randint(0, 9)
    opts = lambda T: shuffled(rng, T, mode + (["blf::allocator< std::allocator< int > >"] if rng.random() < 0.3 else []))
    if k == "q-dtor":
        return "blf::queue< %s > c%s;" % (opts("Dtor"), arg), "blf::stack< %s > c%s;" % (opts("Dtor"), arg), "queue of elements with a non-trivial destructor"
    if k == "q-assign":
        return "blf::queue< %s > c%s;" % (opts("Assign"), arg), "blf::stack< %s > c%s;" % (opts("Assign"), arg), "queue of elements with a non-trivial assignment"
    if k == "q-member":
        T = rng.choice(["Member", "std::string", "std::vector< int >", "std::shared_ptr< int >"])
        return "blf::queue< %s > c%s;" % (opts(T), arg), "blf::stack< %s > c%s;" % (opts(T), arg), "queue of " + T
    if k == "move-only":
        return "blf::stack< %s > c%s;" % (opts("MoveOnly"), arg), "blf::stack< %s > c%s;" % (opts("Dtor"), arg), "stack of elements without copy constructor"
    if k == "ctor":
        kind = rng.choice(["queue", "stack"])
        if rng.random() < 0.5:
            t = "blf::%s< %s >" % (kind, shuffled(rng, "int", [cap(rng.randint(1, 99)), "blf::allocator< Count< int > >"]))
            return ("typedef %s C; C c(3, C::allocator(Count< int >()));" % t, "typedef %s C; C c((C::allocator(Count< int >())));" % t, "size given to a %s with capacity" % kind)
        t = "blf::%s< int, blf::capacity< 5 > >" % kind
        f = rng.choice(["C d(c);", "C d; d = c;"])
        return ("typedef %s C; C c; %s" % (t, f), "typedef %s C; C c; C d;" % t, "copy of a " + kind)
    kind = rng.choice(["queue", "stack", "spsc_queue"])
    n = rng.randint(1, 9)
    f = rng.choice(["pop", "unsynchronized_pop"]) if kind != "spsc_queue" else "pop"
    if kind == "spsc_queue":
        f = "pop"
    t = "blf::%s< int*, %s >" % (kind, cap(n))
    return ("%s c; std::string s; c.%s(s);" % (t, f), "%s c; void* s; c.%s(s);" % (t, f), "%s of a %s into an object of an unrelated type" % (f, kind))


def one_reject(prop, seed, i):
    rng = random.Random("rej-%s-%d-%d" % (prop, seed, i))
    cc, std, flags, dcas, bat = env_draw(rng)
    bad, good, desc = reject_case(rng, prop, i)
    flags = [f for f in flags if "sanitize" not in f]
    tmp = tempfile.mkdtemp(prefix="vp18-")
    try:
        r = dict(desc=desc, cc=cc, flags=flags, env="%s %s" % (cc, " ".join(flags)), bad=None, text=REJ % bad, other="", statement=bad)
        if not accepts(cc, flags, REJ % good, tmp):
            r["bad"] = ("does-not-compile", "a valid program does not compile: %s" % good)
            r["kind"] = "program"
            r["text"] = (REJ % good).replace("void use()", "Tally global_tally; void use()") + "int main() { use(); }\n"
        elif accepts(cc, flags, REJ % bad, tmp):
            r["bad"] = ("accepted", "an invalid program compiles (%s): %s" % (desc, bad))
            r["kind"] = "reject"
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def rejected_programs(quick, thorough):
    def step(prop, tier, seed, outdir, known):
        t0 = time.time()
        n = max(1, int((quick if tier == "quick" else thorough) * float(os.environ.get("VERIF_SCALE", "1"))))
        res = {"scenario": "rejected_programs", "binary": "probes", "rule": "an invalid program and its valid twin were both given to the compiler; distinct by statement and compiler invocation",
               "violations": [], "samples": [], "evaluations": 0, "distinct_nontrivial": 0}
        seen, labels = set(), {}
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for r in ex.map(lambda i: one_reject(prop, seed, i), range(n)):
                res["evaluations"] += 1
                seen.add(r["env"] + r["statement"])
                labels[re.sub(r"\d+", "N", r["desc"])] = labels.get(re.sub(r"\d+", "N", r["desc"]), 0) + 1
                if len(res["samples"]) < 3:
                    res["samples"].append(r["env"] + " | " + r["desc"])
                if r["bad"] and len(res["violations"]) < 3:
                    res["violations"].append({"signature": r["bad"][0], "message": r["bad"][1], "replay": write_replay(prop, outdir, r["kind"], r)})
        res["distinct_nontrivial"] = len(seen)
        res["labels"] = labels
        res["wall_s"] = round(time.time() - t0, 2)
        return res
    return step
