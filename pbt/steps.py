"""What a child of the zygote runs: sequences of translations (C10)."""
import contextlib
import io
import os
import re
import sys
import threading

from . import env
from ctypeslib.codegen import typedesc
from ctypeslib.codegen.codegenerator import CodeTranslator, translate, translate_files
from ctypeslib.codegen.config import CodegenConfig
from ctypeslib.library import Library

TYPES = {"a": typedesc.Alias, "c": typedesc.Structure, "d": typedesc.Variable, "e": typedesc.Enumeration,
         "f": typedesc.Function, "m": typedesc.Macro, "s": typedesc.Structure, "t": typedesc.Typedef, "u": typedesc.Union}


def put(d, files):
    for name, text in files.items():
        p = os.path.join(d, name)
        if text is None:
            if os.path.exists(p):
                os.unlink(p)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)


def clang_opts(s):
    return (["-target", s["target"]] if s.get("target") else []) + list(s.get("flags", ()))


def make_cfg(s):
    """a configuration, made the ways a user makes one"""
    c = CodegenConfig()
    grow = s.get("build") == "extend"

    def put_list(name, value):
        if grow and getattr(c, name) is not None:
            getattr(c, name).extend(value)
        elif value or s.get("build") == "assign":
            setattr(c, name, value)
    put_list("clang_opts", clang_opts(s))
    put_list("symbols", list(s.get("symbols", ())))
    put_list("expressions", [re.compile(r) for r in s.get("regexes", ())])
    put_list("searched_dlls", [Library(n) for n in s.get("libs", ())])
    put_list("preloaded_dlls", list(s.get("preload", ())))
    if s.get("kinds"):
        if grow:
            del c.types[:]
            c.types.extend(TYPES[k] for k in s["kinds"])
        else:
            c.types = [TYPES[k] for k in s["kinds"]]
    for o, a in (("comments", "generate_comments"), ("doc", "generate_docstrings"), ("locations", "generate_locations"),
                 ("verbose", "verbose")):
        if s.get(o):
            setattr(c, a, True)
    if s.get("includes"):
        c.filter_location = False
    return c


def snapshot(c):
    """the settings of a configuration, by value"""
    out = {}
    for n in sorted(set(dir(CodegenConfig)) | set(vars(c))):
        if n.startswith("__"):
            continue
        v = getattr(c, n)
        if callable(v):
            continue
        if isinstance(v, (list, tuple)):
            v = [type(v).__name__] + [x.pattern if isinstance(x, re.Pattern) else x if isinstance(x, (str, type(None))) else
                                      getattr(x, "__name__", None) or "%s:%s" % (type(x).__name__, getattr(x, "_name", "?"))
                                      for x in v]
        elif isinstance(v, dict):
            v = sorted((str(k), str(x)) for k, x in v.items())
        elif not isinstance(v, (str, int, bool, type(None))):
            v = repr(v)
        out[n] = v
    return out


def argv_of(d, s):
    return env.options_argv(kinds=s.get("kinds"), flags=s.get("flags", ()), target=s.get("target"), includes=s.get("includes"),
                            comments=s.get("comments"), doc=s.get("doc"), locations=s.get("locations"),
                            symbols=s.get("symbols", ()), regexes=s.get("regexes", ()), libs=s.get("libs", ()),
                            extra=[x for p in s.get("preload", ()) for x in ("-p", p)]
                            + [x for m in s.get("modules", ()) for x in ("-m", m)] + (["-v"] if s.get("verbose") else [])) \
        + [os.path.join(d, f) for f in s["inputs"]]


def err_of(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


def run_step(d, s, cfgs, notes):
    if s["entry"] == "main":
        o = os.path.join(d, "out.py")
        if os.path.exists(o):
            os.unlink(o)
        with contextlib.redirect_stderr(io.StringIO()):
            r = env.run_main(argv_of(d, s), o)
        # what a failed run leaves in its output is not the subject here
        return [r.rc, r.text if not r.rc and r.exc is None else "", err_of(r.exc) if r.exc else None]
    key = s.get("cfg")
    try:
        if key is not None and key in cfgs:
            cfg = cfgs[key]
        else:
            cfg = make_cfg(s)
            if key is not None:
                cfgs[key] = cfg
        before = snapshot(cfg)
        out = io.StringIO()
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                if s["entry"] == "string":
                    translate(s["files"][s["inputs"][0]], out, cfg)
                elif s["entry"] == "namespace":
                    ns = translate_files([os.path.join(d, f) for f in s["inputs"]], cfg=cfg)
                    out.write("\n".join(sorted(k for k in ns if not k.startswith("__"))) + repr(ns["__all__"]))
                elif s["entry"] == "one-file":
                    translate_files(os.path.join(d, s["inputs"][0]), out, cfg)
                else:
                    translate_files([os.path.join(d, f) for f in s["inputs"]], out, cfg)
            finally:
                after = snapshot(cfg)
                if after != before:
                    notes.append("translating changed the configuration: %s" % (
                        {k: (before.get(k), after.get(k)) for k in set(before) | set(after) if before.get(k) != after.get(k)},))
        return [0, out.getvalue(), None]
    except Exception as e:
        return [1, "", err_of(e)]


def sequence(d, steps, mode):
    """run the steps in one process; returns (results, notes)"""
    cfgs, notes = {}, []
    fresh = snapshot(CodegenConfig())
    if mode == "interleaved":
        res = interleaved(d, steps, notes)
    elif mode == "threads":
        res = threads(d, steps, notes)
    else:
        res = []
        for s in steps:
            put(d, s["files"])
            held = {k: snapshot(c) for k, c in cfgs.items()}
            res.append(run_step(d, s, cfgs, notes))
            for k, c in held.items():
                if k != s.get("cfg") and snapshot(cfgs[k]) != c:
                    notes.append("using one configuration changed another one")
    now = snapshot(CodegenConfig())
    if now != fresh:
        notes.append("a new configuration is not the default one any more: %s" % (
            {k: (fresh.get(k), now.get(k)) for k in set(fresh) | set(now) if fresh.get(k) != now.get(k)},))
    return res, notes


def interleaved(d, steps, notes):
    """several translators alive at once, each stage of all before the next stage"""
    res = [[0, "", None] for _ in steps]
    made = []
    for i, s in enumerate(steps):
        put(d, s["files"])
        try:
            made.append(CodeTranslator(make_cfg(s)))
        except Exception as e:
            res[i] = [1, "", err_of(e)]
            made.append(None)
    outs = [io.StringIO() for _ in steps]
    stages = [lambda t, s, o: t.preload_dlls(), lambda t, s, o: t.make_clang_parser(),
              lambda t, s, o: (put(d, s["files"]), t.parse_input_files([os.path.join(d, f) for f in s["inputs"]])),
              lambda t, s, o: t.make_code_generator(o), lambda t, s, o: t.generate_code(o)]
    for n, stage in enumerate(stages):
        order = list(range(len(steps)))
        if n % 2:
            order.reverse()
        for i in order:
            if made[i] is None or res[i][0]:
                continue
            try:
                stage(made[i], steps[i], outs[i])
            except Exception as e:
                res[i] = [1, "", err_of(e)]
    for i, o in enumerate(outs):
        if not res[i][0]:
            res[i][1] = o.getvalue()
    return res


def warm_up():
    """the clang bindings fill tables on first use, and that is not safe in threads; it is none of ctypeslib's doing"""
    from clang import cindex
    from pbt import layout
    for c in cindex.BaseEnumeration.__subclasses__():
        for v in c._kinds:
            if v is not None:
                v.name
    layout.parse("struct s { int a; }; int f(struct s *p);")


def threads(d, steps, notes):
    """the steps at the same time, each on files of its own directory name but equal content"""
    warm_up()
    res = [None] * len(steps)
    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    barrier = threading.Barrier(len(steps))

    def work(i, s):
        barrier.wait()
        try:
            out = io.StringIO()
            if s["entry"] == "string":
                translate(s["files"][s["inputs"][0]], out, make_cfg(s))
            else:
                translate_files([os.path.join(d, f) for f in s["inputs"]], out, make_cfg(s))
            res[i] = [0, out.getvalue(), None]
        except BaseException as e:
            res[i] = [1, "", err_of(e)]
    try:
        for s in steps:
            put(d, s["files"])
        ts = [threading.Thread(target=work, args=(i, s)) for i, s in enumerate(steps)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return res


def alone(d, s, mode):
    """the reference: one step, in this pristine process"""
    s = dict(s)
    s.pop("cfg", None)
    if mode in ("interleaved", "threads") and s["entry"] != "string":
        s["entry"] = "files"
    if mode == "interleaved":
        s["entry"] = "files"
    put(d, s["files"])
    return run_step(d, s, {}, [])
