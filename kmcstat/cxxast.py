"""Obtain the type-checked syntax tree of the C++ part of KMCLib from clang.

The sources under /repo/c++ are parsed by clang (`-fsyntax-only -ast-dump=json`)
as one unity translation unit; when that does not compile (for instance two
files define a static helper of the same name) every file is parsed on its own.
Only top level declarations located in project files are kept.
"""
import glob, hashlib, json, os, re, subprocess, sys, tempfile, pickle, shutil
from concurrent.futures import ThreadPoolExecutor

CLANG = shutil.which("clang++") or "/usr/bin/clang++"
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("KMCSTAT_REPO", "/repo")


def extensions(repo):
    """the functions that the SWIG interface adds to classes, as C++ text"""
    p = os.path.join(repo, "c++/wrap/backend.i")
    if not os.path.exists(p):
        return ""
    with open(p) as f:
        src = f.read()
    src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
    src = re.sub(r"//[^\n]*", "", src)

    def block(i):
        """the text between the brace at i and the matching one"""
        depth = 0
        for j in range(i, len(src)):
            if src[j] == "{":
                depth += 1
            elif src[j] == "}":
                depth -= 1
                if depth == 0:
                    return src[i + 1:j]
        return ""
    out = []
    for m in re.finditer(r"%extend\s+(\w+)\s*\{", src):
        cls, body = m.group(1), block(m.end() - 1)
        i = 0
        while True:
            f = re.compile(r"([\w:<>&*\s]+?)\b(\w+)\s*\(([^(){}]*)\)\s*(?:const\s*)?\{").search(body, i)
            if not f:
                break
            depth = 0
            for j in range(f.end() - 1, len(body)):
                depth += {"{": 1, "}": -1}.get(body[j], 0)
                if depth == 0:
                    break
            args = ", ".join(x for x in ["%s & self" % cls, f.group(3).strip()] if x)
            text = body[f.end() - 1:j + 1].replace("self->", "self.")
            text = re.sub(r"\(\s*\*\s*self\s*\)|\*\s*self\b", "self", text).replace("$self", "self")
            out.append("%s extend_%s_%s(%s)\n%s\n" % (f.group(1).strip(), cls, f.group(2), args, text))
            i = j + 1
    if not out:
        return ""
    heads = re.findall(r'^\s*#include\s+"(\w+\.h)"', src, flags=re.M)
    return "".join('#include "%s"\n' % h for h in heads) + "#include <stdexcept>\n" + "".join(out)


class FrontendError(Exception):
    pass


def sources(repo):
    out = []
    for d in ("c++/src", "c++/custom"):
        for pat in ("*.cpp", "*.cc", "*.cxx"):
            out += glob.glob(os.path.join(repo, d, pat))
    return sorted(out)


def all_inputs(repo):
    out = []
    for d in ("c++/src", "c++/custom"):
        for root, dirs, files in os.walk(os.path.join(repo, d)):
            for f in files:
                if f.endswith((".cpp", ".cc", ".cxx", ".h", ".hpp", ".hh")) and f != "mpiflag.h":
                    out.append(os.path.join(root, f))
    return sorted(out)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def _flags(repo, inc, mpi):
    # the generated flag header in `inc` shadows the one of the build
    fl = ["-std=c++11", "-fsyntax-only", "-w"]
    fl += ["-I", inc]
    if mpi:
        fl += ["-I", os.path.join(HERE, "stubs")]
    fl += ["-I", os.path.join(repo, "c++/src"), "-I", os.path.join(repo, "c++/custom"),
           "-I", os.path.join(repo, "c++/externals/include"), "-I", os.path.join(HERE, "fallback")]
    return fl


def _parse_dump(raw, prefixes):
    """Yield the json objects of the top level declarations in project files."""
    # top level "inner" entries are separated by "\n    },\n    {\n"
    start = raw.find(b'\n  "inner": [\n    {\n')
    if start < 0:
        raise FrontendError("unexpected clang json layout")
    body = raw[start + len(b'\n  "inner": [\n    {\n'):]
    end = body.rfind(b"\n    }\n  ]\n}")
    body = body[:end]
    cur_file = None
    for chunk in body.split(b"\n    },\n    {\n"):
        # the last "file" printed before the decl's own loc decides where it is;
        # find the "loc" object of the chunk
        files = []
        pos = 0
        first_file = None
        # track file changes in textual order ("includedFrom" files are not positions)
        idx = 0
        loc_file = None
        lines = None
        if b'"file": ' in chunk:
            i = 0
            last = cur_file
            head_done = False
            while True:
                i = chunk.find(b'"file": "', i)
                if i < 0:
                    break
                j = chunk.find(b'"', i + 9)
                name = chunk[i + 9:j]
                # is it inside an includedFrom object?
                k = chunk.rfind(b"{", 0, i)
                inc = chunk[max(0, k - 20):k].rstrip().endswith(b'"includedFrom":')
                if not inc:
                    if not head_done:
                        # belongs to the decl's own loc when it comes before "range"
                        r = chunk.find(b'"range":')
                        if r < 0 or i < r:
                            loc_file = name
                        head_done = True
                    last = name
                i = j
            if loc_file is None:
                loc_file = cur_file
            cur_file = last
        else:
            loc_file = cur_file
        if loc_file is None:
            continue
        f = os.path.realpath(loc_file.decode())
        if any(f.startswith(p) for p in prefixes):
            yield f, json.loads(b"{" + chunk + b"}")


def template_args(f, d):
    """explicit template arguments of calls, which the json dump leaves out"""
    with open(f, "rb") as h:
        src = h.read()

    def walk(n):
        if isinstance(n, dict):
            if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("kind") == "FunctionDecl":
                b, e = n["range"]["begin"].get("offset"), n["range"]["end"].get("offset")
                if b is not None and e is not None:
                    x = src[b:e + n["range"]["end"].get("tokLen", 1)].decode(errors="replace")
                    if "<" in x and x.endswith(">"):
                        n["targs"] = "".join(x[x.index("<"):].split())
            for c in n.get("inner", []):
                walk(c)
    walk(d)


def _dump(tu, flags, prefixes):
    with tempfile.TemporaryFile() as out:
        p = subprocess.run([CLANG] + flags + ["-Xclang", "-ast-dump=json", tu],
                           stdout=out, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise FrontendError(p.stderr.decode(errors="replace")[:2000])
        out.seek(0)
        raw = out.read()
    return list(_parse_dump(raw, prefixes))


def load(repo=None, mpi=False, cache=True):
    """list of (file, decl-json, tu-id); decl ids are unique inside one tu."""
    repo = repo or REPO
    srcs = sources(repo)
    if not srcs:
        raise FrontendError("no C++ sources found below %s" % repo)
    ins = all_inputs(repo)
    with open(os.path.abspath(__file__), "rb") as f:
        me = hashlib.sha256(f.read()).hexdigest()
    ext = extensions(repo)
    key = digest(ins, "%s|%s|%s|%s" % (me, mpi, os.path.realpath(repo), ext))
    cdir = os.path.join(VERIF, ".cache")
    cfile = os.path.join(cdir, "ast-%s.pickle" % key[:32])
    if cache and os.path.exists(cfile):
        try:
            with open(cfile, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="kmcstat")
    try:
        inc = os.path.join(tmp, "inc")
        os.mkdir(inc)
        with open(os.path.join(inc, "mpiflag.h"), "w") as f:
            f.write("#define RUNMPI %s\n" % ("true" if mpi else "false"))
        # quoted includes look in the directory of the including file first, so
        # parse a copy of the tree that has our flag header in place of the build's
        tree = os.path.join(tmp, "tree")
        for p in ins:
            q = os.path.join(tree, os.path.relpath(p, repo))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
        with open(os.path.join(tree, "c++/src/mpiflag.h"), "w") as f:
            f.write("#define RUNMPI %s\n" % ("true" if mpi else "false"))
        flags = _flags(tree, inc, mpi) + ["-I", os.path.join(repo, "c++/externals/include")]
        root = os.path.realpath(tree)
        prefixes = [root + "/c++/src/", root + "/c++/custom/"]
        tsrcs = [os.path.join(tree, os.path.relpath(s, repo)) for s in srcs]
        res = None
        for more in ([True, False] if ext else [False]):
            try:
                extra = []
                if more:
                    extra = [os.path.join(tree, "c++/src/wrap_backend_i.cpp")]
                    with open(extra[0], "w") as f:
                        f.write(ext)
                tu = os.path.join(tmp, "unity.cpp")
                with open(tu, "w") as f:
                    for s in tsrcs + extra:
                        f.write('#include "%s"\n' % s)
                res = [(f, d, 0) for f, d in _dump(tu, flags, prefixes)]
                mode = "unity"
                break
            except FrontendError:
                pass
        if res is None:
            mode = "per-file"
            with ThreadPoolExecutor(4) as ex:
                parts = list(ex.map(lambda s: _dump(s, flags, prefixes), tsrcs))
            res = []
            for n, part in enumerate(parts):
                res += [(f, d, n) for f, d in part]
        for f, d, n in res:
            template_args(f, d)
        res = [(os.path.relpath(f, root), d, n) for f, d, n in res]
        out = {"mode": mode, "decls": res, "files": [os.path.relpath(s, repo) for s in ins]}
        if cache:
            try:
                os.makedirs(cdir, exist_ok=True)
                for old in sorted(glob.glob(os.path.join(cdir, "ast-*.pickle")), key=os.path.getmtime)[:-6]:
                    os.unlink(old)
                t = cfile + ".%d" % os.getpid()
                with open(t, "wb") as f:
                    pickle.dump(out, f, protocol=4)
                os.replace(t, cfile)
            except OSError:
                pass
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    r = load(mpi="mpi" in sys.argv)
    print(r["mode"], len(r["decls"]), time.time() - t)
    from collections import Counter
    kinds = Counter()

    def walk(n):
        if isinstance(n, dict):
            if "kind" in n:
                kinds[n["kind"]] += 1
            for c in n.get("inner", []):
                walk(c)
    for f, d, n in r["decls"]:
        walk(d)
    for k, v in kinds.most_common():
        print(k, v)
