"""A stand-in for the cxx crate's code generator: reads the bridge module of lib.rs and writes
  gen/trajoptlib/src/lib.rs.h   the C++ header of the shared types (as cxxbridge does),
  gen/wire.hpp, gen/glue.cpp    the native side of the bridge (every call as bytes),
  gen/lib.rs                    lib.rs with the bridge module expanded.
Only what it finds in the bridge decides what is generated; anything it does not know raises."""
import os, re

PRIM = {"f64": "double", "f32": "float", "usize": "std::size_t", "isize": "std::ptrdiff_t", "bool": "bool",
        **{"i%d" % b: "std::int%d_t" % b for b in (8, 16, 32, 64)}, **{"u%d" % b: "std::uint%d_t" % b for b in (8, 16, 32, 64)}}


class Unknown(Exception):
    pass


def tokens(s):
    """(token, start, end) without comments."""
    out, i, n = [], 0, len(s)
    pat = re.compile(r"[A-Za-z_]\w*|\d[\w.]*|::|->|\S")
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif s.startswith("//", i):
            i = s.find("\n", i) if s.find("\n", i) >= 0 else n
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while d:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            i = j
        elif c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append((s[i:j + 1], i, j + 1))
            i = j + 1
        else:
            m = pat.match(s, i)
            out.append((m.group(), i, m.end()))
            i = m.end()
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1][0]

    def want(self, x):
        got = self.next()
        if got != x:
            raise Unknown("bridge: expected %s, found %s" % (x, got))

    def take(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def attr(self):
        """#[...] -> its tokens"""
        self.want("#")
        self.take("!")
        self.want("[")
        d, out = 1, []
        while d:
            x = self.next()
            d += x == "["
            d -= x == "]"
            if d:
                out.append(x)
        return out

    def attrs(self):
        out = []
        while self.peek() == "#":
            out.append(self.attr())
        return out

    def vis(self):
        if self.take("pub") and self.take("("):
            while self.next() != ")":
                pass

    def type(self):
        if self.take("&"):
            if self.peek() == "'":
                self.next(), self.next()
            mut = self.take("mut")
            return ("refmut" if mut else "ref", self.type())
        if self.take("fn") or (self.peek() == "unsafe" and (self.next(), self.take("fn"))[1]):
            self.want("(")
            args = []
            while not self.take(")"):
                if self.peek(1) == ":":
                    self.next(), self.next()
                args.append(self.type())
                self.take(",")
            ret = self.type() if self.take("->") else ("unit",)
            return ("fn", args, ret)
        if self.take("("):
            self.want(")")
            return ("unit",)
        n = self.next()
        while self.take("::"):
            n = self.next()
        if self.take("<"):
            a = [self.type()]
            while self.take(","):
                if self.peek() != ">":
                    a.append(self.type())
            self.want(">")
            return ("gen", n, a)
        return ("name", n)


def attr_value(attrs, key):
    for a in attrs:
        if a and a[0] == key and len(a) >= 3:
            return a[2].strip('"')
    return None


def parse(src):
    toks = tokens(src)
    p = P(toks)
    while p.peek() is not None:
        start = p.i
        if p.peek() == "#":
            attrs = p.attrs()
            b = next((a for a in attrs if a[:3] == ["cxx", "::", "bridge"]), None)
            if b is None:
                continue
            p.vis()
            p.want("mod")
            name = p.next()
            p.want("{")
            ns = ""
            for k, x in enumerate(b):
                if x == "namespace":
                    ns = "".join(b[k + 2:]).rstrip(")").strip('"').replace('"', "").split(",")[0]
            bridge = dict(mod=name, ns=ns, structs=[], fns=[], opaque=[], includes=[], serde={})
            while not p.take("}"):
                item(p, bridge)
            bridge["span"] = (toks[start][1], toks[p.i - 1][2])
            return bridge
        p.next()
    raise Unknown("no cxx bridge in lib.rs")


def item(p, b):
    at = p.attrs()
    p.vis()
    k = p.next()
    if k == "struct":
        name = p.next()
        p.want("{")
        fields = []
        while not p.take("}"):
            fa = p.attrs()
            p.vis()
            f = p.next()
            p.want(":")
            b["serde"][name, f] = [a for a in fa if a[:1] == ["serde"]]
            fields.append((f, attr_value(fa, "cxx_name") or f, p.type()))
            p.take(",")
        b["serde"][name, ""] = [a for a in at if a[:1] == ["serde"]]
        derives = [x for a in at if a[:1] == ["derive"] for x in a[1:] if x not in "(),"]
        b["structs"].append((name, attr_value(at, "cxx_name") or name, fields, derives))
    elif k == "unsafe" or k == "extern":
        if k == "unsafe":
            p.want("extern")
        p.want('"C++"')
        p.want("{")
        while not p.take("}"):
            at = p.attrs()
            p.vis()
            x = p.next()
            if x == "include":
                p.want("!"), p.want("(")
                b["includes"].append(p.next())
                p.want(")"), p.want(";")
            elif x == "type":
                b["opaque"].append(p.next())
                p.want(";")
            elif x in ("fn", "unsafe"):
                if x == "unsafe":
                    p.want("fn")
                name = p.next()
                p.want("(")
                args, me = [], None
                while not p.take(")"):
                    if p.peek() == "self":
                        p.next(), p.want(":")
                        me = p.type()
                    elif p.peek() == "&" and p.peek(1) in ("self", "mut"):
                        raise Unknown("short self type")
                    else:
                        p.attrs()
                        n = p.next()
                        p.want(":")
                        args.append((n, p.type()))
                    p.take(",")
                ret = p.type() if p.take("->") else ("unit",)
                p.want(";")
                b["fns"].append(dict(rust=attr_value(at, "rust_name") or name, cxx=attr_value(at, "cxx_name") or name, me=me, args=args,
                                     ret=ret))
            else:
                raise Unknown("bridge: " + x)
    elif k == "use":
        while p.next() != ";":
            pass
    else:
        raise Unknown("bridge: " + k)


class Gen:
    def __init__(self, b, serde=False):
        self.serde = serde
        self.b = b
        self.cname = {s[0]: s[1] for s in b["structs"]}

    # C++ type of a Rust type
    def cpp(self, t):
        if t[0] == "unit":
            return "void"
        if t[0] == "name":
            if t[1] in PRIM:
                return PRIM[t[1]]
            if t[1] == "String":
                return "::rust::String"
            if t[1] in self.cname:
                return "::%s::%s" % (self.b["ns"], self.cname[t[1]])
            if t[1] in self.b["opaque"]:
                return "::%s::%s" % (self.b["ns"], t[1])
        if t[0] == "ref":
            return self.cpp(t[1]) + " const&"
        if t[0] == "refmut":
            return self.cpp(t[1]) + "&"
        if t[0] == "gen" and t[1] == "Vec":
            return "::rust::Vec<%s>" % self.cpp(t[2][0])
        if t[0] == "gen" and t[1] == "UniquePtr":
            return "::std::unique_ptr<%s>" % self.cpp(t[2][0])
        if t[0] == "gen" and t[1] == "Pin":
            return self.cpp(t[2][0])
        if t[0] == "fn":
            return "::rust::Fn<%s(%s)>" % (self.cpp(t[2]), ", ".join(map(self.cpp, t[1])))
        raise Unknown("bridge: type %s" % (t,))

    def rs(self, t):
        if t[0] == "unit":
            return "()"
        if t[0] == "name":
            return "super_ffi_opaque::" + t[1] if False else t[1]
        if t[0] == "ref":
            return "&" + self.rs(t[1])
        if t[0] == "refmut":
            return "&mut " + self.rs(t[1])
        if t[0] == "gen":
            n = {"UniquePtr": "::cxx::UniquePtr", "Pin": "::std::pin::Pin", "Vec": "::std::vec::Vec"}.get(t[1])
            if n is None:
                raise Unknown("bridge: " + t[1])
            return "%s<%s>" % (n, ", ".join(map(self.rs, t[2])))
        if t[0] == "fn":
            return "fn(%s)%s" % (", ".join(map(self.rs, t[1])), "" if t[2] == ("unit",) else " -> " + self.rs(t[2]))
        raise Unknown(str(t))

    def header(self):
        o = ["// Generated from the bridge in lib.rs.", "#pragma once"]
        for i in self.b["includes"]:
            o.append("#include %s" % i)
        o += ["#include <rust/cxx.h>", "namespace %s {" % self.b["ns"]]
        for s in self.b["structs"]:
            o.append("struct %s;" % s[1])
        # (structs by value must be complete: order by dependence)
        done, todo = [], list(self.b["structs"])

        def deps(t):
            if t[0] == "name":
                return {t[1]} & set(self.cname)
            if t[0] == "gen":
                return set().union(*map(deps, t[2]))
            return set()
        while todo:
            s = next((s for s in todo if all(deps(f[2]) <= set(done) for f in s[2])), None)
            if s is None:
                raise Unknown("recursive structs")
            todo.remove(s)
            done.append(s[0])
            o.append("struct %s final {" % s[1])
            for _, c, t in s[2]:
                o.append("  %s %s%s;" % (self.cpp(t), c, " CXX_DEFAULT_VALUE(0)" if False else ("{}" if t[0] == "name" and t[1] in PRIM else "")))
            o.append("  using IsRelocatable = ::std::true_type;")
            o.append("};")
        o.append("}")
        return "\n".join(o) + "\n"

    def wire(self):
        o = ["#pragma once", '#include "trajoptlib/src/lib.rs.h"', "namespace rust { inline namespace cxxbridge1 { namespace env {"]
        for s in self.b["structs"]:
            c = self.cpp(("name", s[0]))
            o += ["void Put(Writer& w, const %s& v);" % c, "void Get(Reader& r, %s& v);" % c]
        o += ["template <typename T> void Put(Writer& w, const Vec<T>& v) { Put(w, static_cast<std::uint64_t>(v.size())); for (auto& x : v) Put(w, x); }",
              "template <typename T> void Get(Reader& r, Vec<T>& v) { std::uint64_t n; Get(r, n); v.clear(); for (std::uint64_t i = 0; i < n; ++i) { T x; Get(r, x); v.push_back(std::move(x)); } }"]
        for s in self.b["structs"]:
            c = self.cpp(("name", s[0]))
            o += ["inline void Put([[maybe_unused]] Writer& w, [[maybe_unused]] const %s& v) { %s }" % (c, " ".join("Put(w, v.%s);" % f[1] for f in s[2])),
                  "inline void Get([[maybe_unused]] Reader& r, [[maybe_unused]] %s& v) { %s }" % (c, " ".join("Get(r, v.%s);" % f[1] for f in s[2]))]
        o.append("}}}")
        return "\n".join(o) + "\n"

    def opaque_of(self, t):
        while t[0] in ("ref", "refmut") or (t[0] == "gen" and t[1] == "Pin"):
            t = t[1] if t[0] != "gen" else t[2][0]
        return t[1]

    def glue(self):
        o = ['#include "wire.hpp"', "extern \"C\" void minicxx_call_fn(void* fn, int kind, const unsigned char* p, std::size_t n);",
             "namespace { using namespace rust::env;",
             "void Give(Writer& w, unsigned char** out, std::size_t* n) { *n = w.b.size(); *out = static_cast<unsigned char*>(std::malloc(*n + 1)); if (*n > 0) std::memcpy(*out, w.b.data(), *n); } }"]
        o.insert(1, "#include <cstdlib>")
        kinds = self.fn_kinds()
        for k, (args, ret) in enumerate(kinds):
            o.append("static void Trampoline%d(%s) { Writer w; %s minicxx_call_fn(fn, %d, w.b.data(), w.b.size()); }" %
                     (k, ", ".join(["%s a%d" % (self.cpp(a), i) for i, a in enumerate(args)] + ["void* fn"]),
                      " ".join("Put(w, a%d);" % i for i in range(len(args))), k))
        ids = self.ids()
        for f in self.b["fns"]:
            throws = f["ret"][0] == "gen" and f["ret"][1] == "Result"
            ret = f["ret"][2][0] if throws else f["ret"]
            sig = ", ".join(self.cpp(t) for _, t in f["args"])
            body = []
            names = []
            for i, (n, t) in enumerate(f["args"]):
                v = "a%d" % i
                if t[0] == "fn":
                    k = kinds.index((t[1], t[2]))
                    body.append("void* p%d; Get(r, p%d); auto %s = %s::EnvMake(&Trampoline%d, p%d);" % (i, i, v, self.cpp(t), k, i))
                    names.append(v)
                elif t[0] == "ref":
                    body.append("%s %s{}; Get(r, %s);" % (self.cpp(t[1]), v, v))
                    names.append("static_cast<%s const&>(%s)" % (self.cpp(t[1]), v))
                elif t[0] == "refmut":
                    raise Unknown("mutable reference argument")
                else:
                    body.append("%s %s{}; Get(r, %s);" % (self.cpp(t), v, v))
                    names.append("std::move(%s)" % v)
            if f["me"]:
                op = self.cpp(("name", self.opaque_of(f["me"])))
                const = f["me"][0] == "ref"
                # (the real bridge checks the signature in the same way)
                call = "%s (%s::*m)(%s)%s = &%s::%s; " % (self.cpp(ret), op, sig, " const" if const else "", op, f["cxx"])
                call += "auto& me = *static_cast<%s%s*>(self); " % (op, " const" if const else "")
                expr = "(me.*m)(%s)" % ", ".join(names)
            else:
                call = "%s (*m)(%s) = &::%s::%s; " % (self.cpp(ret), sig, self.b["ns"], f["cxx"])
                expr = "m(%s)" % ", ".join(names)
            if ret == ("unit",):
                run = expr + ";"
            elif ret[0] == "gen" and ret[1] == "UniquePtr":
                run = "auto v = %s; Put(w, static_cast<void*>(v.release()));" % expr
            else:
                run = "auto v = %s; Put(w, v);" % expr
            o.append('extern "C" int minicxx_%s([[maybe_unused]] void* self, const unsigned char* p, [[maybe_unused]] std::size_t n, unsigned char** out, std::size_t* outn) noexcept {' % ids[id(f)])
            o.append("  [[maybe_unused]] Reader r{p}; Writer w; " + " ".join(body))
            o.append("  " + call)
            if throws:
                o.append("  int failed = 0; try { %s } catch (const std::exception& e) { failed = 1; w.b.clear(); Put(w, ::rust::String{e.what()}); }" % run)
                o.append("  Give(w, out, outn); return failed; }")
            else:
                o.append("  %s Give(w, out, outn); return 0; }" % run)
        for t in self.b["opaque"]:
            o.append('extern "C" void minicxx_drop_%s(void* p) noexcept { delete static_cast<%s*>(p); }' % (t, self.cpp(("name", t))))
        o.append('extern "C" void minicxx_free(unsigned char* p) noexcept { std::free(p); }')
        return "\n".join(o) + "\n"

    def ids(self):
        return {id(f): (self.opaque_of(f["me"]) + "_" if f["me"] else "") + f["cxx"] for f in self.b["fns"]}

    def fn_kinds(self):
        out = []
        for f in self.b["fns"]:
            for _, t in f["args"]:
                if t[0] == "fn" and (t[1], t[2]) not in out:
                    if t[2] != ("unit",):
                        raise Unknown("function pointer with a result")
                    out.append((t[1], t[2]))
        return out

    def module(self):
        o = ["#[allow(dead_code, unused_mut, unused_variables, clippy::all)] mod %s {" % self.b["mod"], "use ::cxx::wire::*;"]
        for s in self.b["structs"]:
            d = [x for x in s[3] if x not in ("Deserialize", "Serialize", "ExternType")]
            if self.serde:
                d += ["::serde::" + x for x in s[3] if x in ("Deserialize", "Serialize")]
            if d:
                o.append("#[derive(%s)]" % ", ".join(d))

            def at(f):
                return "".join("#[%s] " % " ".join(a) for a in self.b["serde"][s[0], f]) if self.serde else ""
            o.append("%spub struct %s { %s }" % (at(""), s[0], ", ".join("%spub %s: %s" % (at(f[0]), f[0], self.rs(f[2])) for f in s[2])))
            o.append("impl Wire for %s { fn put(&self, w: &mut Vec<u8>) { %s } fn get(r: &mut Reader) -> Self { %s %s { %s } } }" % (
                s[0], " ".join("self.%s.put(w);" % f[0] for f in s[2]),
                " ".join("let %s = Wire::get(r);" % f[0] for f in s[2]), s[0], ", ".join(f[0] for f in s[2])))
        ids = self.ids()
        o.append('extern "C" {')
        for f in self.b["fns"]:
            o.append("fn minicxx_%s(me: *mut u8, p: *const u8, n: usize, out: *mut *mut u8, outn: *mut usize) -> i32;" % ids[id(f)])
        for t in self.b["opaque"]:
            o.append("fn minicxx_drop_%s(p: *mut u8);" % t)
        o.append("}")
        for t in self.b["opaque"]:
            o.append("#[repr(C)] pub struct %s { _private: [u8; 0], _pin: ::core::marker::PhantomData<::core::marker::PhantomPinned> }" % t)
            o.append("impl ::cxx::Opaque for %s { fn drop_native(p: *mut u8) { unsafe { minicxx_drop_%s(p) } } }" % (t, t))
        kinds = self.fn_kinds()
        for k, (args, ret) in enumerate(kinds):
            o.append("#[no_mangle] pub extern \"C\" fn minicxx_call_fn_%d(f: *const u8, p: *const u8, n: usize) { let f: fn(%s) = unsafe { ::core::mem::transmute(f) }; let mut r = Reader::new(p, n); %s f(%s); }" % (
                k, ", ".join(map(self.rs, args)), " ".join("let a%d = Wire::get(&mut r);" % i for i in range(len(args))),
                ", ".join("a%d" % i for i in range(len(args)))))
        o.append("#[no_mangle] pub extern \"C\" fn minicxx_call_fn(f: *const u8, kind: i32, p: *const u8, n: usize) { match kind { %s _ => unreachable!() } }" % " ".join(
            "%d => minicxx_call_fn_%d(f, p, n)," % (k, k) for k in range(len(kinds))))

        def one(f):
            throws = f["ret"][0] == "gen" and f["ret"][1] == "Result"
            ret = f["ret"][2][0] if throws else f["ret"]
            rt = self.rs(ret)
            if throws:
                rt = "::core::result::Result<%s, ::cxx::Exception>" % rt
            me, mep = "", "::core::ptr::null_mut()"
            if f["me"]:
                if f["me"][0] == "ref":
                    me, mep = "&self, ", "self as *const Self as *mut u8"
                else:
                    me, mep = "self: ::std::pin::Pin<&mut Self>, ", "unsafe { self.get_unchecked_mut() as *mut Self as *mut u8 }"
            a = ", ".join("%s: %s" % (n, self.rs(t)) for n, t in f["args"])
            b = "let mut w: Vec<u8> = Vec::new(); "
            for n, t in f["args"]:
                b += ("(%s as *const u8 as usize).put(&mut w); " if t[0] == "fn" else "%s.put(&mut w); ") % n
            b += "let (failed, bytes) = ::cxx::call(minicxx_%s, %s, &w); let mut r = Reader::new(bytes.as_ptr(), bytes.len()); " % (ids[id(f)], mep)
            if throws:
                b += "if failed { let s: String = Wire::get(&mut r); return Err(::cxx::Exception::new(s)); } "
            if ret == ("unit",):
                v = "()"
            elif ret[0] == "gen" and ret[1] == "UniquePtr":
                v = "{ let p: usize = Wire::get(&mut r); unsafe { ::cxx::UniquePtr::from_raw(p as *mut _) } }"
            else:
                v = "Wire::get(&mut r)"
            return "pub fn %s(%s%s) -> %s { %s%s }" % (f["rust"], me, a, rt, b, "Ok(%s)" % v if throws else v)
        for t in self.b["opaque"]:
            o.append("impl %s {" % t)
            for f in self.b["fns"]:
                if f["me"] and self.opaque_of(f["me"]) == t:
                    o.append(one(f))
            o.append("}")
        for f in self.b["fns"]:
            if not f["me"]:
                o.append(one(f))
        o.append("}")
        return "\n".join(o) + "\n"


def generate(repo, out, serde=False):
    src = open(os.path.join(repo, "src", "lib.rs")).read()
    b = parse(src)
    g = Gen(b, serde)
    os.makedirs(os.path.join(out, "trajoptlib", "src"), exist_ok=True)
    w = lambda n, s: open(os.path.join(out, n), "w").write(s)
    w("trajoptlib/src/lib.rs.h", g.header())
    w("wire.hpp", g.wire())
    w("glue.cpp", g.glue())
    a, e = b["span"]
    w("lib.rs", src[:a] + g.module() + src[e:])
    return b


if __name__ == "__main__":
    import sys
    generate(sys.argv[1], sys.argv[2])
