"""Which harness decides which property."""
from bounds import BOUNDS

PROPS = {}


def prop(pid, parts, assumptions=(), **kw):
    quick, thorough = BOUNDS[pid]
    PROPS[pid] = dict(parts=parts, bounds={"quick": quick, "thorough": thorough},
                      assumptions=list(assumptions), **kw)


def part(name, src, **kw):
    return dict(name=name, src=src if isinstance(src, list) else [src], **kw)


def json_macros(repo, bdir, first=""):
    """Objects with 1 to 30 fields, made by the macros of the library."""
    plain = ["int", "bool", "int"]
    ty = ["BCL_JOIN(Both<int, bool>)", "BCL_JOIN(Both<bool, std::map<int, int>>)", "int"]
    files = 10
    for k in range(files):
        out = [first, "#include \"json_ref.h\"", "#include \"json_macros.h\""]
        mine = [n for n in range(1, 31) if n % files == k]
        for n in mine:
            for root in (0, 1):
                o = "%s%d" % ("PR"[root], n)
                f = ", ".join("f%d, %s" % (i, ty[i % 3]) for i in range(1, n + 1))
                v = ", ".join("(%s)V[%d]" % (plain[i % 3], i - 1) for i in range(1, n + 1))
                out += ["JSON_OBJECT_BEGIN(%s)" % o,
                        "JSON_OBJECT_%sPAIR%s(%s, %s)" % ("ROOT_" if root else "", "_%d" % n if n > 1 else "", o, f),
                        "%s() %s {}" % (o, ": JSON_INIT_ROOT" if root else ""),
                        "explicit %s(const std::vector<int> &V) : JSON_INIT(%s, %s)%s {}" % (o, o, v, ", JSON_INIT_ROOT" if root else ""),
                        "JSON_OBJECT_END(%s)" % o, "JSON_DEFAULT_TRAITS(::, %s)" % o,
                        "void get(const %s &O, std::vector<int> &V) { V.clear();" % o]
                out += ["  V.push_back(O[%s::f%d]);" % (o, i) for i in range(1, n + 1)]
                out += ["}", "void set(%s &O, const std::vector<int> &V) {" % o]
                out += ["  O[%s::f%d] = V[%d];" % (o, i, i - 1) for i in range(1, n + 1)]
                out += ["}"]
                out += ["static_assert(std::is_same<JSON_VALUE_TYPE(%s, f%d), %s>::value, \"\");" % (o, i, plain[i % 3]) for i in (1, n // 2 + 1, n)]
        out += ["void macros%d(int Which) { switch (Which) {" % k]
        out += ["case %d: object<%s%d>(%d, \"%s%d\"); break;" % (n * 2 + r, "PR"[r], n, n, "PR"[r], n) for n in mine for r in (0, 1)]
        out += ["} }"]
        open(bdir + "/json_macros_%d.cpp" % k, "w").write("\n".join(out) + "\n")


def json_generated(repo, bdir):
    """The same with the macros which the generator script writes now."""
    import os
    import shutil
    import subprocess
    shutil.copytree(repo + "/include/bcl", bdir + "/written/bcl")
    p = subprocess.run(["perl", repo + "/scripts/json_object_macro_gen.pl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    os.remove(bdir + "/written/bcl/JsonObjectMacros.h")
    text = p.stdout if p.returncode == 0 else b"#error the generator script has failed\n"
    open(bdir + "/written/bcl/JsonObjectMacros.h", "wb").write(text)
    json_macros(repo, bdir, "#include \"written/bcl/Json.h\"")


def static_maps(repo, bdir):
    """Static maps with all ordered selections of keys, and pairs of them."""
    from itertools import permutations
    files = 8
    text = [["#include \"static_map.h\"", "using namespace sm;", "void staticMaps%d() {" % k] for k in range(files)]
    n = 0

    def add(line):
        nonlocal n
        text[n % files].append("  " + line)
        n += 1
    name = lambda ks: " ".join(map(str, ks))
    keys = lambda ks: ", ".join("K<%d>" % k for k in ks)
    ty = {0: "int", 1: "std::string", 3: "Deep", 4: "std::vector<int>"}
    sel = lambda ks, m: [p for r in range(m + 1) for p in permutations(ks, r)]
    for p in sel(range(4), 4) + [(4, 0, 1, 2, 3), (3, 2, 1, 0, 4), (2, 4, 0, 3, 1)]:
        add("addMap<%s>(\"map %s\");" % (keys(p), name(p)))
    for p in sel((0, 1, 3), 3) + [(4, 0, 3, 1), (0, 1, 3, 4), (1, 4, 0, 3)]:
        add("addTypeMap<%s>(\"types %s\");" % (", ".join(ty[k] for k in p), name(p)))
    for w in (6, 7, 8, 9, 12, 16, 17, 24):  # wide maps
        for q in (list(range(w)), list(range(w))[::-1], [i * 5 % w for i in range(w)] if w % 5 else []):
            if q:
                add("addMap<%s>(\"wide %s\");" % (keys(q), name(q)))
    wide = [list(range(9)), list(range(8, -1, -1)), list(range(6, 18)), [i * 5 % 12 for i in range(12)], [20], list(range(3, 20, 2))]
    for a in wide:
        for b in wide:
            add("addPair<bcl::StaticMap<%s>, bcl::StaticMap<%s>>(\"wide %s | %s\");" % (keys(a), keys(b), name(a), name(b)))
    left = [p for p in sel(range(4), 4) if list(p) == sorted(p)]
    right = sel(range(4), 3)
    for a, b in [(x, y) for x in left for y in right] + [(y, x) for x in left for y in right if len(y) > 1 and list(y) != sorted(y)]:
        add("addPair<bcl::StaticMap<%s>, bcl::StaticMap<%s>>(\"%s | %s\");" % (keys(a), keys(b), name(a), name(b)))
    for k in range(files):
        open(bdir + "/static_maps_%d.cpp" % k, "w").write("\n".join(text[k] + ["}"]) + "\n")


def tagged_tuples(repo, bdir):
    """Tagged tuples with all ordered selections of elements, and pairs."""
    from itertools import permutations
    files = 8
    text = [["#include \"tagged_tuple.h\"", "using namespace tt;", "void taggedTuples%d() {" % k] for k in range(files)]
    n = 0

    def add(line):
        nonlocal n
        text[n % files].append("  " + line)
        n += 1
    for r in range(5):
        for p in permutations(range(4), r):
            a, b = ", ".join(map(str, p)), " ".join(map(str, p))
            add("addTuple<%s>(\"tuple %s\");" % (a, b))
            add("addSame<%s>(\"%s\");" % (a, b))
            if r == 2:
                add("addPair<%s>(\"pair %s\");" % (a, b))
                if set(p) != {0, 2}:
                    add("addConv<%s>(\"convertible %s\");" % (a, b))
    for w in (5, 6, 8, 9, 12, 16, 17):  # wide tuples; 9 is no element
        for q in (list(range(10, 10 + w)), [3, 2, 1, 0] + list(range(10 + w, 14, -1)), [10 + i * 3 % w for i in range(w)] if w % 3 else []):
            if q:
                a, b = ", ".join(map(str, q)), " ".join(map(str, q))
                add("addTuple<%s>(\"tuple %s\");" % (a, b))
                add("addSame<%s>(\"%s\");" % (a, b))
    for k in range(files):
        open(bdir + "/tagged_tuples_%d.cpp" % k, "w").write("\n".join(text[k] + ["}"]) + "\n")


def trait_spec(spec):
    """C++ types of a declaration: ';' separates groups, ',' blocks of an
    alternative. "u" marks a union of a single trait. Returns (type, traits)."""
    groups, seen = [], []
    for g in spec.split(";"):
        blocks = []
        for b in g.split(","):
            ts = b.replace("u", "").split()
            seen += [t for t in ts if t not in seen]
            l = ", ".join("T<%s>" % t for t in ts)
            blocks.append("Un<%s>" % l if len(ts) > 1 or "u" in b else l)
        alt = len(blocks) > 1 or "u" in g or " " in g.strip()
        groups.append("Alt<%s>" % ", ".join(blocks) if alt else blocks[0])
    return "bcl::TraitDescriptor<%s>" % ", ".join(groups), ["T<%s>" % t for t in seen]


TRAITS = ["0", "0;1;2", "0,1", "0,1,2;3", "0;1 2,1 3", "0 1,2,3 0;4;5,6", "0,1 2 3;4 5,5 6,6 4",
          "0 1,1 2,2 3", "0 1 2,2 3 4,4 5 0", "0;1,2;3;4,5 6,7;8", "0 1 2 3", "0,1,2,3,4,5", "0 1,0 2,0 3,0 4;5",
          "u0,1;2", "3;1 0,2 0,1 2;4,5", "7;0,1,2 3;6", ";".join(map(str, range(14))), "8,9;10 11,11 12"]


def trait_descs(repo, bdir):
    """Descriptors of traits: fixed ones, and all alternatives of three traits."""
    from itertools import combinations
    files = 8
    specs = list(TRAITS)
    subsets = [c for r in (1, 2, 3) for c in combinations((1, 2, 3), r)]
    for n in range(1, 8):
        for fam in combinations(subsets, n):
            if {t for b in fam for t in b} != {1, 2, 3}:
                continue
            s = ",".join(" ".join(map(str, b)) for b in fam)
            specs.append("0;%s;4" % s if len(specs) % 2 else "%s;5" % s)
    wide = ";".join(map(str, range(61))) + ";61,62,63"
    text = [["#include \"trait_desc.h\"", "using namespace td;", "void traitDescs%d() {" % k] for k in range(files)]
    n = 0

    def add(line):
        nonlocal n
        text[n % files].append("  " + line)
        n += 1
    for s in specs:
        d, ts = trait_spec(s)
        add("addDesc<%s, %s>(\"%s\", \"%s\");" % (d, ", ".join(ts), s, s.replace("u", "")))
    # All bits of a key are used; only some traits are operated on.
    d, ts = trait_spec(wide)
    some = [ts[i] for i in (0, 1, 30, 60, 61, 62, 63)]
    add("wide();")
    cross = [("0;1 2,1 3", "0 1,1 2,2 3"), ("0;1;2", "0,1,2;3"), ("0,1,2;3", "0;1;2"), ("0 1 2 3", "0,1,2,3,4,5"), ("0 1 2,2 3 4,4 5 0", "0;1,2;3;4,5 6,7;8"),
             ("8,9;10 11,11 12", "0,1"), ("0 1,2,3 0;4;5,6", "0 1,0 2,0 3,0 4;5")]
    for a, b in cross:
        (da, ta), (db, tb) = trait_spec(a), trait_spec(b)
        add("crosses().push_back({\"%s to %s\", 0, 0, TCross<TDesc<%s, %s>, TDesc<%s, %s>>::run});" % (a, b, da, ", ".join(ta), db, ", ".join(tb)))
    for k in range(files):
        t = text[k]
        if "  wide();" in t:
            t.insert(2, "static void wide();")
        t.append("}")
        if "  wide();" in t:
            t.append("typedef %s Wide;" % d)
            t.append("static void wide() { types().push_back(Type{\"wide\", {%s}, \"0;1;30;60;61,62,63\", TDesc<Wide, %s>::make}); }" % (
                ", ".join(str(i) for i in (0, 1, 30, 60, 61, 62, 63)), ", ".join(some)))
        open(bdir + "/trait_descs_%d.cpp" % k, "w").write("\n".join(t) + "\n")

def legacy_errors(repo, bdir):
    """Descriptions of errors: all ordered forests, hierarchies of applications,
    and all shapes of static trees."""
    from functools import lru_cache
    from itertools import product
    files = 8
    head = [["#include \"legacy.h\"", "using namespace lg;"] for _ in range(files)]
    body = [["void legacyErrors%d() {" % k] for k in range(files)]

    @lru_cache(None)
    def forests(n):
        if not n:
            return [()]
        return [((first,) + rest) for k in range(1, n + 1) for first in forests(k - 1) for rest in forests(n - k)]

    def size(f):
        return sum(1 + size(t) for t in f)
    kinds = ["Base::ErrorList::Warning", "Base::ErrorList::Error", "Base::ErrorList::Fatal", "Utility::Null"]
    coll = lambda l: "CELL_COLL_%d(%s)" % (len(l), ", ".join(l)) if l else "Utility::Null"

    class App:
        """An application: forest of errors, order of types, used applications."""
        def __init__(self, name, forest, shared, seed, prio=(0, 1, 2), apps=()):
            self.name, self.forest, self.prio, self.apps = name, forest, prio, list(apps)
            self.decl, self.errors, self.known = [], [], {}
            names = []
            for i, t in enumerate(forest):
                names.append(self.declare(t, "r%d" % i, shared, seed))
            self.roots = names
            code = 0
            for i, t in enumerate(forest):
                code = self.walk(t, names[i], [], code)
            self.count = code

        def declare(self, t, at, shared, seed):
            # Equal subtrees of the same depth and position share descriptions.
            sub = [self.declare(c, (at[:1] if not shared else "s%d_" % (at.count("_") + 1)) + ("" if shared else at[1:]) + "_%d" % i, shared, seed) for i, c in enumerate(t)]
            key = (at if not shared or at[0] == "r" else at, tuple(sub))
            if key in self.known:
                return self.known[key]
            n = "%s_e%d" % (self.name, len(self.known))
            self.known[key] = n
            ty = (len(self.known) * 3 + seed) % 4
            self.decl.append("ERROR_DECL(%s, \"%s %s\", %s, %s)" % (n, at, "x:y" if seed % 3 == 1 else "of " + self.name, coll(sub), kinds[ty]))
            self.known[n] = (ty, "%s %s" % (at, "x:y" if seed % 3 == 1 else "of " + self.name), sub)
            return n

        def walk(self, t, n, path, code):
            code += 1
            ty, brief, sub = self.known[n]
            p = path + [n]
            cur = 0
            for m in p:
                k = self.known[m][0]
                if k < 3 and self.prio.index(k) > cur:
                    cur = self.prio.index(k)
            text = ["warning", "error", "fatal error"][self.prio[cur]]
            self.errors.append((p, code, text, ": ".join(self.known[m][1] for m in p), size(t)))
            for c, m in zip(t, sub):
                code = self.walk(c, m, p, code)
            return code

        def emit(self):
            return self.decl + ["struct %s { DESCRIPTION_FIELD(Acronym, \"Acronym\", \"The %s\") typedef %s Errors; typedef %s ErrorPriority; typedef %s Applications; typedef Utility::Null ValueType; };" % (
                self.name, self.name, coll(self.roots), coll([kinds[k] for k in self.prio]), coll([a.name for a in self.apps]))]

        def offset(self, other):
            """Offset of errors of another application, or None and the total."""
            if self is other:
                return 0, True
            at = self.count
            for a in self.apps:
                o, found = a.offset(other)
                at += o
                if found:
                    return at, True
            return at, False

        def reach(self, out):
            if self not in out:
                out.append(self)
                for a in self.apps:
                    a.reach(out)
            return out
    groups = []
    n = 0
    for k in range(1, 5):
        for f in forests(k):
            for shared in (False, True):
                groups.append([App("F%d" % n, f, shared, n, prio=[(0, 1, 2), (2, 1, 0), (1, 0, 2)][n % 3])])
                n += 1
    some = [(), ((),), ((), ((),)), ((((),),),), ((), (), ((), ()))]

    def hierarchy(t, top, out):
        used = [hierarchy(c, top, out) for c in t]
        a = App("%s_%d" % (top, len(out)), some[(len(out) * 2 + n) % 5], False, n + len(out), apps=used)
        out.append(a)
        return a
    for k in range(2, 5):
        for f in forests(k - 1):
            out = []
            hierarchy(f, "H%d" % n, out)
            groups.append(out)
            n += 1
    def sized(t, top, out, counts):
        used = [sized(c, top, out, counts) for c in t]
        a = App("%s_%d" % (top, len(out)), ((),) * (counts[len(out)] if len(out) < len(counts) else 1), True, n, apps=used)
        out.append(a)
        return a
    for k in range(2, 5):       # all numbers of errors
        for f in forests(k - 1):
            for counts in product((1, 2), repeat=k - 1):
                out = []
                sized(f, "N%d" % n, out, counts)
                groups.append(out)
                n += 1
    for shape in range(2):      # an application which is used in several ways
        nm = "D%d" % shape
        a = App(nm + "a", some[2], False, 1)
        b = App(nm + "b", some[1 + shape], False, 2, apps=[a])
        c = App(nm + "c", some[4 - shape], False, 3, apps=[a] if shape else [b, a])
        groups.append([a, b, c, App(nm + "d", some[1], False, 0, apps=[b, c] if shape else [c, b])])
    for i, g in enumerate(groups):
        h, b = head[i % files], body[i % files]
        for a in g:
            h += a.emit()
        for a in g:
            b.append("  addCount<%s>(\"%s\", %d);" % (a.name, a.name, a.count))
            users = [u for u in g if a in u.reach([])]
            for p, code, ty, brief, below in a.errors:
                th = ", ".join("{\"The %s\", %d}" % (u.name, u.offset(a)[0] + code) for u in users)
                b.append("  addError<%s, %s, %s>(\"%s: %s\", Expected{%d, \"%s\", \"%s\", %d}, \"The %s\", {%s});" % (
                    a.name, coll(p), ", ".join(u.name for u in users), a.name, brief, code, ty, brief, below, a.name, th))

    @lru_cache(None)
    def shapes(k):
        return [None] if not k else [(l, r) for i in range(k) for l in shapes(i) for r in shapes(k - 1 - i)]

    def tree(s, at, post):
        if s is None:
            return "Utility::Null", at, "-"
        me = at
        l, at, a = tree(s[0], at + 1, post)
        r, at, c = tree(s[1], at, post)
        post.append(me)
        return "Base::Node<I<%d>, %s, %s>" % (me, l, r), at, "%d(%s %s)" % (me, a, c)
    k = 0
    for size_ in range(1, 5):
        for s in shapes(size_):
            post = []
            t, cnt, name = tree(s, 0, post)
            body[k % files].append("  addTree<%s>(\"%s\", {%s}, {%s});" % (t, name, ", ".join(map(str, range(cnt))), ", ".join(map(str, post))))
            k += 1
    for k in range(files):
        open(bdir + "/legacy_errors_%d.cpp" % k, "w").write("\n".join(head[k] + body[k] + ["}"]) + "\n")


def legacy_cells(repo, bdir):
    """Legacy collections: all ordered selections of identifiers, pairs of
    them, and macros which declare long ones."""
    from itertools import permutations
    files = 8
    text = [["#include \"legacy_cells.h\"", "using namespace lc;", "void legacyCells%d() {" % k] for k in range(files)]
    n = 0

    def add(line):
        nonlocal n
        text[n % files].append("  " + line)
        n += 1
    name = lambda ks: " ".join(map(str, ks))
    sel = lambda ks, m: [p for r in range(1, m + 1) for p in permutations(ks, r)]
    for p in sel(range(4), 4) + [(4, 0, 1, 2, 3), (3, 2, 1, 0, 4), (2, 4, 0, 3, 1), (0, 4), (4, 3, 2)]:
        add("addCells<%s>(\"%s\");" % (", ".join(map(str, p)), name(p)))
    c = lambda p: "TCells<%s>" % ", ".join(map(str, p))
    left = [p for p in sel(range(4), 4) if list(p) == sorted(p)]
    right = sel(range(4), 3)
    for a, b in [(x, y) for x in left for y in right] + [(y, x) for x in left for y in right if list(y) != sorted(y)]:
        add("addPair<%s, %s>(\"%s | %s\");" % (c(a), c(b), name(a), name(b)))
    for k in range(1, 101):
        add("addMacro<CELL_COLL_%d(%s)>(%d);" % (k, ", ".join("I<%d>" % i for i in range(k)), k))
    for k in range(files):
        open(bdir + "/legacy_cells_%d.cpp" % k, "w").write("\n".join(text[k] + ["}"]) + "\n")


prop("Q01", [part("tq", "tq_ops.cpp")])

prop("Q02", [part("tq", "tq_values.cpp")])

prop("C01", [part("chain", "chain_links.cpp")])
prop("C02", [part("chain", "chain_iter.cpp")])

prop("E01", [part("solve", "equation_solve.cpp")])

prop("E02", [part("instantiate", "equation_inst.cpp")])

prop("M01", [part("marray", "marray_index.cpp"),
             # More than AddressSanitizer can allocate; one array at a time.
             part("huge", "marray_index.cpp", flags=["-DMARRAY_HUGE"], san=["-fsanitize=undefined", "-fno-sanitize-recover=all"], jobs=1)])
prop("V01", [part("wrapper", "ptr_wrapper.cpp")])
prop("D01", [part("diagnostic", "diagnostic.cpp")])
prop("J02", [part("text", "json_text.cpp"), part("lexer", "json_lexer.cpp")])
prop("J01", [part("round", "json_round.cpp")])
prop("J03", [part("objects", "json_objects.cpp"),
             part("macros", "json_macros.cpp", gen=[json_macros], genflags=["-O0", "-g0"],
                  gensrc=["json_macros_%d.cpp" % k for k in range(10)], san=[]),
             part("generator", "json_macros.cpp", gen=[json_generated], genflags=["-O0", "-g0"],
                  gensrc=["json_macros_%d.cpp" % k for k in range(10)], san=[])])

prop("S01", [part("maps", "static_map.cpp", gen=[static_maps], genflags=["-O0", "-g0"],
                  gensrc=["static_maps_%d.cpp" % k for k in range(8)], san=[])])
prop("S02", [part("tuples", "tagged_tuple.cpp", gen=[tagged_tuples], genflags=["-O0", "-g0"],
                  gensrc=["tagged_tuples_%d.cpp" % k for k in range(8)], san=[])])
prop("T01", [part("descriptors", "trait_desc.cpp", gen=[trait_descs], genflags=["-O0", "-g0"],
                  gensrc=["trait_descs_%d.cpp" % k for k in range(8)], san=[])])
prop("T02", [part("sets", "trait_set.cpp")])

prop("R01", [part("redirect", "redirect.cpp")])
prop("R02", [part("redirect", "redirect.cpp", flags=["-DR02"])])
prop("U01", [part("helpers", ["utility.cpp", "utility_types.cpp"], flags=["-fno-sanitize=shift,alignment"])])

TSAN = dict(san=["-fsanitize=thread"], libsan=[], env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=86:report_signal_unsafe=0"})
prop("I01", [part("connection", "intrusive.cpp", lib=["coop.cpp"])])
prop("I02", [part("connection", "intrusive.cpp", lib=["coop.cpp"], flags=["-DI02"]),
             part("races", "intrusive.cpp", lib=["coop.cpp"], flags=["-DI02"], **TSAN)])
CS = dict(lib=["coop.cpp"], repo_src=["lib/Socket/CSocket/CSocket.cpp"], config=["BCL_C_SOCKET"])
prop("N01", [part("server", "csocket.cpp", flags=["-DN01"], **CS)])
prop("N02", [part("server", "csocket.cpp", flags=["-DN02"], **CS)])
prop("N03", [part("server", "csocket.cpp", flags=["-DN03"], **CS),
             part("races", "csocket.cpp", flags=["-DN03"], **CS, **TSAN)])

prop("N04", [part("node", ["n04_app.cpp"], ctl="n04_ctl.cpp", driver="n04_driver.js", jobs=20,
                  repo_src=["lib/Socket/NodeJSSocket/NodeJSSocket.cpp"])])

prop("L01", [part("legacy", "legacy.cpp", gen=[legacy_errors], genflags=["-O0", "-g0"],
                  gensrc=["legacy_errors_%d.cpp" % k for k in range(8)])])
prop("L02", [part("cells", "legacy_cells.cpp", gen=[legacy_cells], genflags=["-O0", "-g0"],
                  gensrc=["legacy_cells_%d.cpp" % k for k in range(8)], san=[])])

prop("L03", [part("values", "legacy_value.cpp")])

prop("F01", [part("alloc", "alloc_fail.cpp")])
