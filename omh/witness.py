"""Compile-fail witnesses: a generated translation unit of static_asserts over the
repository's own headers.  A violating tree does not compile, and the failing assertion
names the violated obligation."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from . import db
from .db import Broken, VERIF
from .core import Result

WIT = os.path.join(VERIF, "witness")


FEW = ("template <typename T, Int n> class Few { T array_[n]; public: enum { size = n }; constexpr T* data() { return array_; } "
       "constexpr T const* data() const { return array_; } constexpr T& operator[](Int i) { return array_[i]; } "
       "constexpr T const& operator[](Int i) const { return array_[i]; } "
       "constexpr Few(std::initializer_list<T> l) { Int i = 0; for (auto& x : l) array_[i++] = x; } constexpr Few() {} "
       "constexpr Few(Few const&) = default; constexpr Few& operator=(Few const&) = default; "
       "constexpr void operator=(Few const& o) volatile { auto& me = const_cast<Few&>(*this); for (Int i = 0; i < n; ++i) me.array_[i] = o.array_[i]; } }")
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\b0[xX][0-9a-fA-F]+\w*|(?<![\w.])(?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?(?![\w.])'
                 r'|(?<![\w.])\d+[eE][+-]?\d+(?![\w.])|\bdouble\b')


def exact(txt, root):
    """The repository's part of a preprocessed unit with its reals replaced by the oracle's
    exact type; floating literals become values of that type."""
    def f(m):
        s = m.group(0)
        if s == "double":
            return " ::oracle::Rat "
        return s if s[0] in "\"'" or s[:2] in ("0x", "0X") else s + "_real"
    out, inside = [], False
    for l in txt.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            inside = m.group(1).startswith(root)
            out.append(l)
        else:
            out.append(TOK.sub(f, l) if inside else l)
    s = "\n".join(out) + "\n"
    # r3d keeps its arrays in raw bytes, which no constant evaluation can read: a plain array instead
    m = re.search(r"namespace\s+r3d\s*\{", s)
    k = m and re.compile(r"template\s*<\s*(?:typename|class)\s+\w+\s*,\s*Int\s+\w+\s*>\s*class\s+Few\s*\{").search(s, m.end())
    if k:
        i, d = k.end(), 1
        while d and i < len(s):
            d += {"{": 1, "}": -1}.get(s[i], 0)
            i += 1
        s = s[:k.start()] + FEW + re.sub(r"[^\n]", "", s[k.start():i]) + s[i:]
    return s


def compile_asserts(header, asserts, prelude="", std="-std=c++20", chunk=4000, extra=(), rewrite=False, jobs=8, timeout=800):
    """asserts: list of (expr, key, text[, weight]).  Returns the failed ones as (key, text, log)."""
    if len(asserts) <= 8 or not rewrite:
        parts = [asserts]
    else:
        parts = [[] for _ in range(jobs)]
        load = [0.0] * jobs
        for a in sorted(asserts, key=lambda a: -(a[3] if len(a) > 3 else 1)):
            j = load.index(min(load))
            parts[j].append(a)
            load[j] += a[3] if len(a) > 3 else 1
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda p: _compile(header, p, prelude, std, extra, rewrite, timeout), [p for p in parts if p]))
    bad = set(id(a) for r in res for a in r)
    return [a[:3] for a in asserts if id(a) in bad]


def _compile(header, asserts, prelude, std, extra, rewrite, timeout):
    failed = []
    work = tempfile.mkdtemp(prefix="omhw")
    try:
        src = os.path.join(work, "w.cpp")
        with open(src, "w") as f:
            f.write(prelude)
            f.write('#include "%s"\n' % os.path.join(WIT, header))
            f.write("using namespace oracle;\n")
            for i, a in enumerate(asserts):
                f.write('static_assert(%s, "OBL%d");\n' % (a[0], i))
        cmd = (["g++", std, "-fimplicit-constexpr", "-fsyntax-only", "-w", "-fmax-errors=0", "-fconstexpr-ops-limit=2000000000",
                "-fconstexpr-loop-limit=10000000", "-I" + os.path.join(db.REPO, "src"), "-I" + db.config_dir(),
                "-I" + os.path.join(db.REPO, "tpl")] + db.mpi_flags() + list(extra) + [src])

        def run(cmd):
            try:
                return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=dict(os.environ, LC_ALL="C"))
            except subprocess.TimeoutExpired:
                raise Broken("witness %s: the compiler does not finish" % header)

        def expand(ii):
            pp = run([x for x in cmd if x != "-fsyntax-only"] + ["-E", "-o", ii])
            if pp.returncode:
                raise Broken("witness %s does not preprocess:\n%s" % (header, pp.stdout[:3000]))
            return open(ii).read()
        if rewrite:
            ii = os.path.join(work, "e.cpp")
            txt = exact(expand(ii), db.REPO.rstrip("/") + "/")
            open(ii, "w").write(txt)
            cmd = cmd[:-1] + [ii]
        out = run(cmd).stdout
        # a helper that is neither inline nor constexpr is treated as if it were inline
        for rnd in range(6):
            names = set(re.findall(r"call to non-.constexpr. function .(?:[^\n]*?[ :*&])?(\w+)(?:<[^\n]*>)?\(", out)) - {"fail", "Omega_h_fail", "__assert_fail"}
            if not names:
                break
            ii = os.path.join(work, "w%d.cpp" % rnd)
            if rnd == 0 and not rewrite:
                txt = expand(ii)
            for nm in names:
                txt = re.sub(r"(?m)((?:^|[;{}])\s*)((?:static\s+)?)((?!.*\b(?:inline|return|constexpr|operator|static_assert)\b)[\w:<>,&* ]+?[ *&]%s\s*\([^;{}]*\)\s*\{)" % re.escape(nm), r"\1inline \2\3", txt)
            open(ii, "w").write(txt)
            cmd = cmd[:-1] + [ii]
            out = run(cmd).stdout
        if os.environ.get("OMH_WITNESS_LOG"):
            print(out)
        errs = re.findall(r"(?m)^(\S*?):(\d+):\d+: error: (.*)$", out)
        nonconst = set()
        other = []
        for f, ln, msg in errs:
            if msg.startswith("static assertion failed: OBL"):
                failed.append(asserts[int(re.match(r"static assertion failed: OBL(\d+)", msg).group(1))])
            elif "non-constant condition" in msg and os.path.basename(f) == "w.cpp":
                nonconst.add(int(ln))
            elif not (f.startswith(os.path.join(WIT, "")) and "is not a constant expression" in msg):
                other.append("%s:%s: %s" % (f, ln, msg))
        bad = [x for x in re.findall(r"call to non-.constexpr. function (.*)", out) if not re.search(r"Omega_h::fail\(|Omega_h_fail\(|__assert_fail", x)]
        if nonconst and bad:
            raise Broken("witness %s: cannot evaluate %s at compile time" % (header, bad[0]))
        if nonconst:
            # evaluation ran into undefined behaviour or a failed check inside the library
            text = open(src).read().splitlines()
            for ln in sorted(nonconst):
                m = re.search(r'"OBL(\d+)"', text[ln - 1])
                if m:
                    failed.append(asserts[int(m.group(1))])
        if (other and not nonconst) or (errs and not failed):
            raise Broken("witness %s does not compile:\n%s" % (header, "\n".join(other[:20]) or out[:3000]))
        return failed
    finally:
        shutil.rmtree(work, ignore_errors=True)


def where(fn_name, file):
    """Position of a function's definition in the current source, for the report."""
    p = os.path.join(db.REPO, file)
    try:
        for i, l in enumerate(open(p, errors="replace")):
            if re.search(r"\b%s\s*\(" % re.escape(fn_name), l):
                return "%s:%d" % (file, i + 1)
    except OSError:
        pass
    return file


def where_in(fn_name, files):
    for f in files:
        w = where(fn_name, f)
        if ":" in w:
            return w
    return files[0]
