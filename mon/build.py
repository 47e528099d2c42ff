"""Builds bindings from YANG text with the plugin of /repo's working tree, through pyang's
command line, in a forked child (the plugin keeps process-wide state)."""
import contextlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types

from . import core

REPO = os.environ.get("VERIF_REPO", "/repo")
PLUGIN = os.path.join(REPO, "pyangbind", "plugin")


class BuildError(Exception):
    pass


class YangError(Exception):
    """pyang itself takes the YANG to be wrong: the fault of whoever wrote it"""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="mon-", dir=os.environ.get("MON_TMP")))
    return _scratch[1]


def _preload():
    # only what pyang itself consists of: the plugin is loaded by pyang in the child
    import pyang  # noqa
    import pyang.context, pyang.plugin, pyang.repository, pyang.statements, pyang.util  # noqa
    import pyang.scripts.pyang_tool as tool
    import lxml.etree  # noqa
    import lxml.objectify  # noqa
    return tool


def module_name(text):
    return re.match(r"\s*(?:sub)?module\s+(\S+)", text).group(1)


def run_pyang(texts, flags=(), targets=None, hashseed=None, env=None, cwd=None, tostdout=False):
    """Returns the text pyang wrote. texts: YANG sources; targets: names of those to build
    (by default all that are not submodules)."""
    d = tempfile.mkdtemp(dir=scratch())
    try:
        files = {}
        for t in texts:
            n = module_name(t)
            files[n] = os.path.join(d, n + ".yang")
            with open(files[n], "w", encoding="utf-8") as f:
                f.write(t)
        if targets is None:
            targets = [module_name(t) for t in texts if re.match(r"\s*module", t)]
        args = ["--plugindir", PLUGIN, "-f", "pybind", "-p", d, "-W", "none"] + list(flags)
        outf, errf = os.path.join(d, "out.py"), os.path.join(d, "err")
        stdo = os.path.join(d, "stdout")
        open(outf, "w").close()
        if "--split-class-dir" not in args and not tostdout:
            args += ["-o", outf]
        rel = os.path.relpath(d, cwd) if cwd else d
        args += [os.path.join(rel, os.path.basename(files[n])) for n in targets]
        if hashseed is not None:
            # a process of its own
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONHASHSEED=str(hashseed), **(env or {}))
            with open(outf if tostdout else stdo, "wb") as o, open(errf, "wb") as e:
                rc = subprocess.run([sys.executable, "-m", "pyang.scripts.pyang_tool"] + args, stdout=o, stderr=e, env=env,
                                    cwd=cwd, timeout=300).returncode
        else:
            tool = _preload()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    fo = os.open(stdo, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    fe = os.open(errf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(fo, 1)
                    os.dup2(fe, 2)
                    sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
                    sys.stderr = open(2, "w", encoding="utf-8", closefd=False)
                    sys.argv = ["pyang"] + args
                    try:
                        rc = tool.run() or 0
                    except SystemExit as e:
                        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                        rc = 99
                    sys.stdout.flush()
                    sys.stderr.flush()
                finally:
                    os._exit(rc & 0xFF)
            _, st = os.waitpid(pid, 0)
            rc = os.waitstatus_to_exitcode(st)
        src = open(outf, encoding="utf-8").read()
        err = open(errf, encoding="utf-8").read()
        if rc:
            if "that pyang has found errors with" in err and re.search(r"\.yang:\d+: error: ", err):
                if "pattern mismatch" in err:
                    # libxml2, which pyang matches defaults with, gets some patterns wrong
                    raise core.Skip("pyang takes a default to be wrong")
                raise YangError(err[-1500:])
            raise BuildError("pyang exited with %s: %s %s" % (rc, err[-1500:], src[:300]))
        return src, err
    finally:
        shutil.rmtree(d, ignore_errors=True)


_n = [0]


def load(src):
    _n[0] += 1
    name = "bindings_%d_%d" % (os.getpid(), _n[0])
    m = types.ModuleType(name)
    m.__file__ = name + ".py"
    try:
        exec(compile(src, name + ".py", "exec"), m.__dict__)
    except SyntaxError as e:
        raise BuildError("the generated code is not Python: %s" % e)
    return m


def build(texts, flags=(), targets=None):
    src, _ = run_pyang(texts, flags, targets)
    return load(src)


_pkgs = [0]


def build_split(texts, flags=(), targets=None, keep=False):
    """the package that --split-class-dir makes; keep: parts of it are imported later"""
    import importlib
    _pkgs[0] += 1
    name = "split_%d_%d" % (os.getpid(), _pkgs[0])
    top = scratch()
    d = os.path.join(top, name)
    run_pyang(texts, list(flags) + ["--split-class-dir", d], targets)
    if not os.path.isfile(os.path.join(d, "__init__.py")):
        shutil.rmtree(d, ignore_errors=True)
        raise BuildError("there is no package")
    sys.path.insert(0, top)
    importlib.invalidate_caches()
    try:
        return importlib.import_module(name)
    except Exception as e:
        import traceback
        raise BuildError("the package cannot be imported: %s" % "".join(traceback.format_exception(e))[-700:])
    finally:
        sys.path.remove(top)
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def drop_split(pkg):
    for d in pkg.__path__:
        shutil.rmtree(d, ignore_errors=True)
    for n in [n for n in sys.modules if n == pkg.__name__ or n.startswith(pkg.__name__ + ".")]:
        del sys.modules[n]


def cleanup():
    global _scratch
    if _scratch and _scratch[0] == os.getpid():
        shutil.rmtree(_scratch[1], ignore_errors=True)
        _scratch = None
