"""Reads the public headers of /repo and gives every declared function's
signature with its ownership annotations."""
import os, re, subprocess, glob
import build as B

DEFS = {"__isl_give": "__GIVE__", "__isl_take": "__TAKE__", "__isl_keep": "__KEEP__",
        "__isl_null": "__NULLR__", "__isl_export": "__EXPORT__", "__isl_overload": "__OVERLOAD__",
        "__isl_constructor": "__CONSTRUCTOR__"}
MARKS = {"__GIVE__": "give", "__TAKE__": "take", "__KEEP__": "keep", "__NULLR__": "null",
         "__EXPORT__": "export", "__OVERLOAD__": "export", "__CONSTRUCTOR__": "export"}


class Fn:
    __slots__ = ("name", "ret", "ret_own", "args", "exported")

    def __repr__(self):
        return "%s %s %s(%s)" % (self.ret_own, self.ret, self.name,
                                 ", ".join("%s %s" % (o, t) for t, o, n in self.args))


def split_args(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [a.strip() for a in out]


def clean(t):
    own, words = None, []
    for w in re.findall(r"[A-Za-z_0-9]+|\*|\S", t):
        if w in MARKS:
            if MARKS[w] != "export":
                own = MARKS[w]
        elif w in ("extern", "struct", "enum", "inline"):
            pass
        else:
            words.append(w)
    return " ".join(words), own


def parse_decl(stmt):
    stmt = " ".join(stmt.split())
    m = re.match(r"^(.*?[\s\*])(isl_\w+)\s*\((.*)\)\s*(?:__attribute__.*)?$", stmt)
    if not m:
        return None
    ret, name, args = m.groups()
    if "typedef" in ret or "(" in ret:
        return None
    f = Fn()
    f.name = name
    f.exported = "__EXPORT__" in ret or "__OVERLOAD__" in ret or "__CONSTRUCTOR__" in ret
    f.ret, f.ret_own = clean(ret)
    f.args = []
    if args.strip() not in ("", "void"):
        for a in split_args(args):
            if "(" in a:
                t, own = clean(a)
                nm = re.search(r"\(\s*\*\s*(\w+)\s*\)", a)
                f.args.append(("fnptr:" + t, own, nm.group(1) if nm else ""))
                continue
            t, own = clean(a)
            mm = re.match(r"^(.*[\s\*])(\w+)$", t)
            if mm and mm.group(1).strip() not in ("const", "unsigned", "long", "") or \
               (mm and mm.group(1).strip() in ("unsigned", "long") and mm.group(2) not in ("int", "long", "char")):
                f.args.append((mm.group(1).strip(), own, mm.group(2)))
            else:
                f.args.append((t, own, ""))
    return f


def load():
    hdrs = sorted(glob.glob(os.path.join(B.REPO, "include/isl/*.h")))
    skip = {"hmap.h", "maybe.h", "cpp.h", "stdint.h", "config.h", "deprecated"}
    src = "".join('#include <isl/%s>\n' % os.path.basename(h) for h in hdrs
                  if os.path.basename(h) not in skip and "cpp" not in os.path.basename(h))
    cmd = ["gcc", "-E", "-P", "-x", "c", "-"] + ["-D%s=%s" % kv for kv in DEFS.items()] + B.incflags()
    p = subprocess.run(cmd, input=src, env=B.ENV, capture_output=True, text=True)
    if p.returncode:
        raise B.BuildError("headers: " + p.stderr[-2000:])
    text = p.stdout
    # drop brace bodies
    out, depth = "", 0
    for c in text:
        if c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
        elif depth == 0:
            out += c
    fns = {}
    for stmt in out.split(";"):
        f = parse_decl(stmt)
        if f:
            fns[f.name] = f
    return fns


if __name__ == "__main__":
    fns = load()
    print(len(fns))
    import collections
    c = collections.Counter(t for f in fns.values() for t, o, n in f.args)
    for k, v in c.most_common(400):
        print(v, k)
