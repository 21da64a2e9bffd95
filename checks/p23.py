"""P23 - the function cache never changes what the parser does."""
import ast
import json
import os
import pickle
import random
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

import vk

RULE = ("child processes build parsers and run a fixed set of templates over prepared states of the cache file: absent, fresh, truncated at every kind of point, emptied, random bytes, other pickled objects, of another version (with other functions "
        "in it), written by the script form of the program, a folder or a full device in its place, folder missing, a file in place of the folder, unreadable and unwritable (as an unprivileged user), write failing at a size limit, writer killed at a "
        "random moment, files replaced, truncated and removed by a vandal while several processes start. Results and tables of functions of every start are compared with those of a clean start and with the functions found in the sources; files and their "
        "times are compared before and after. The same states are also fed to parsers built inside one process. Non-trivial: the cache was in a damaged, shared or unusual state.")
NEED = {"starts": 218, "in_process": 294, "truncated": 133, "state_absent": 1, "state_fresh": 1, "state_empty": 1, "state_random": 1, "state_object": 4, "state_python2": 1, "state_truncated": 6, "state_tail": 1,
        "state_directory": 1, "state_full": 1, "state_no_folder": 1, "state_file_folder": 1, "state_script": 8, "state_dangling": 1, "limited_write": 7, "killed": 18, "race": 8, "race_children": 28, "vandal_acts": 229,
        "cache_reused": 139, "cache_written": 44, "not_rewritten": 1, "multi": 4, "default_folder": 4, "tables_checked": 500, "only_there": 48}
ASSUME = ["damaged files are those that do not load as the pickled table of this version: a table altered so that it still loads cannot be told from a good one", "an empty TTPCACHEFOLDER is not decided", "Python runs as root in most cases: permissions are exercised "
          "in children of an unprivileged user when the sandbox lets it"]
CASE_LIMIT = 120

PROBE = os.path.join(vk.VERIF, "lib", "cacheprobe.py")
NAME = "ttp_dict_cache.pickle"
REF = {}


def source_tables():
    """functions found in the sources, by folder, under the names templates use"""
    out = {}
    for root, dirs, files in os.walk(vk.TTPDIR):
        for f in files:
            if not f.endswith(".py") or f.startswith("_") or f.endswith("_py2.py") or f == "ttp.py":
                continue
            with open(os.path.join(root, f), encoding="utf-8") as h:
                tree = ast.parse(h.read())
            names = {}
            for n in tree.body:
                if isinstance(n, ast.Assign) and any(getattr(t, "id", "") == "_name_map_" for t in n.targets):
                    names = ast.literal_eval(n.value)
            for n in tree.body:
                if isinstance(n, ast.FunctionDef) and not n.name.startswith("_"):
                    out.setdefault(os.path.basename(root), set()).add(names.get(n.name, n.name))
    return {k: sorted(v) for k, v in out.items()}


def env_for(cache, cwd, package=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("TTP") and k != "PYTHONPATH"}
    e.update(PYTHONPATH=package or vk.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", HOME=cwd)
    if cache is not None:
        e["TTPCACHEFOLDER"] = cache
    return e


def start(cache, cwd, mode="full", user=None, pre=None, package=None):
    kw = {"user": user} if user else {}
    return subprocess.Popen([sys.executable, PROBE, mode], env=env_for(cache, cwd, package), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True, preexec_fn=pre, start_new_session=True, **kw)


def finish(M, p, what, mode, table=True):
    try:
        out, err = p.communicate(timeout=100)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise vk.Inconclusive("child did not end")
    M.ev("starts")
    if p.returncode in (-9, -15):
        raise vk.Inconclusive("child was killed")
    M.true(p.returncode == 0 and out.count("@@") == 2, "process did not start or parse with this cache", state=what, output=out[-500:], error=err[-1500:])
    res, tab = json.loads(out.split("@@")[1])
    ref = reference(mode)
    M.eq(res, ref[0], "results with this state of the cache", state=what)
    if mode != "multi" and table:
        M.eq(tab, ref[1], "functions available with this state of the cache", state=what)
        M.ev("tables_checked")
    return p


def reference(mode):
    """results of a clean start in a folder of its own; tables are those of the sources"""
    mode = {"twice": "full"}.get(mode, mode)
    if mode not in REF:
        d = os.path.join(os.environ["VERIF_SCRATCH"], "p23ref_%d_%s" % (os.getpid(), mode))
        os.makedirs(d, exist_ok=True)
        p = start(d, d, mode)
        out, err = p.communicate(timeout=100)
        if out.count("@@") != 2:
            raise vk.Violation("clean start failed", error=err[-1500:])
        REF[mode] = json.loads(out.split("@@")[1])
        if mode == "full":
            src = source_tables()
            tab = REF[mode][1]
            if any(src.get(k) != v for k, v in tab.items()) or set(tab) - set(src):
                raise vk.Violation("functions of a clean start are not those of the sources", got=tab, expected=src)
        with open(os.path.join(d, NAME), "rb") as f:
            REF.setdefault("bytes", f.read())
    return REF[mode]


def good_bytes():
    reference("full")
    return REF["bytes"]


def other_version(rng):
    """table of another version that knows other functions"""
    from ttp import ttp  # noqa: F401
    from ttp.ttp import __version__
    b = good_bytes()
    v = __version__.encode()
    new = bytes((c + 1 if c in b"012345678" else c) for c in v)
    out = b.replace(b"\x8c" + bytes([len(v)]) + v, b"\x8c" + bytes([len(v)]) + new)
    assert out != b
    for n in (b"startswith_re", b"joinmatches", b"macro", b"record"):
        out = out.replace(b"\x8c" + bytes([len(n)]) + n, b"\x8c" + bytes([len(n)]) + b"q" * len(n))
    return out


class Marker:
    pass


def damage(rng, M, kind):
    """bytes of a damaged cache file"""
    b = good_bytes()
    if kind == "empty":
        return b""
    if kind == "random":
        return rng.choice([bytes(rng.randrange(256) for _ in range(rng.randint(1, 300))), b"not a pickle\n", b"\x80", b"\x80\x04", b"\x80\x09abc", b"{}", b"\n" * 50, b"\x00" * rng.randint(1, 9000), b"garbage" + b])
    if kind == "object":
        o = rng.choice([[], {}, 5, None, "text", ["python_major_version"], {"python_major_version": 3}, {"__version__": "0.9.5"}, {"python_major_version": None, "__version__": None}, {"match": {}}, {"python_major_version": 3, "__version__": ["x"]},
                        (1, 2), {"python_major_version": 3, "__version__": "99.99"}, b"x"])
        return rng.choice([pickle.dumps(o), pickle.dumps(o, 0), pickle.dumps(o, 2), b"cno_such_module\nThing\n.", b"cttp.ttp\nNoSuchClass\n.", b"\x80\x04\x8c\x03osx\x94\x8c\x06nothing\x94\x93."])
    if kind == "other_version":
        return other_version(rng)
    if kind == "python2":
        i = b.index(b"python_major_version") + 20
        # memoize opcode and the small integer that follows
        j = b.index(b"K\x03", i)
        return b[:j] + b"K\x02" + b[j + 2:]
    if kind == "truncated":
        M.ev("truncated")
        return b[:rng.choice([rng.randint(0, len(b) - 1), rng.randint(0, 40), len(b) - rng.randint(1, 20)])]
    if kind == "tail":
        # bytes lost in front or in the middle
        i = rng.randint(1, len(b) - 1)
        return rng.choice([b[i:], b[:i] + b"\xff" * rng.randint(1, 8) + b[i:] if False else b[:i // 2] + b[i:] if False else b[i:]])
    if kind == "script":
        return b.replace(b"\x8c\x07ttp.ttp", b"\x8c\x08__main__")
    raise KeyError(kind)


def snap(*dirs):
    out = {}
    for d in dirs:
        for root, ds, fs in os.walk(d):
            for f in fs + ds:
                p = os.path.join(root, f)
                try:
                    st = os.lstat(p)
                    out[p] = (st.st_mode, st.st_size, st.st_mtime_ns if not os.path.isdir(p) else 0)
                except OSError:
                    out[p] = None
    return out


STATES = ["absent", "fresh", "empty", "random", "random", "object", "object", "other_version", "python2", "truncated", "truncated", "truncated", "tail", "script", "directory", "full", "no_folder", "file_folder", "dangling"]


def case_state(rng, M):
    """one state, two or three starts one after another"""
    kind = rng.choice(STATES)
    cwd = os.path.join(M.scratch, "cwd")
    folder = os.path.join(M.scratch, "cache dir" if rng.random() < 0.3 else "cache")
    os.makedirs(cwd)
    writable = True
    cache = os.path.join(folder, NAME)
    if kind == "no_folder":
        writable = False
    elif kind == "file_folder":
        with open(folder, "w") as f:
            f.write("a file")
        writable = False
    else:
        os.makedirs(folder)
        if kind == "directory":
            os.makedirs(cache)
            writable = False
        elif kind == "full":
            os.symlink("/dev/full", cache)
            writable = False
        elif kind == "dangling":
            os.symlink(os.path.join(M.scratch, "nowhere", "x"), cache)
            writable = False
        elif kind == "fresh":
            with open(cache, "wb") as f:
                f.write(good_bytes())
        elif kind != "absent":
            with open(cache, "wb") as f:
                f.write(damage(rng, M, kind))
    M.ev("state_" + kind)
    M.note(state=kind, size=os.path.getsize(cache) if os.path.isfile(cache) else None)
    mode = rng.choice(["full", "full", "twice", "light"])
    before = snap(M.scratch, vk.TTPDIR)
    finish(M, start(folder, cwd, mode), kind, mode)
    first = snap(M.scratch, vk.TTPDIR)
    new = [p for p in first if before.get(p) != first[p] and "__pycache__" not in p]
    M.true(all(p == cache or p == folder for p in new), "files changed outside of the cache file", got_files=[p for p in new if p != cache], state=kind)
    gone = [p for p in before if p not in first]
    M.true(not gone, "files removed", got_files=gone)
    M.ev("only_there")
    if kind in ("fresh", "script"):
        # script: pickled by the same code run as a script
        if kind == "fresh":
            M.true(before[cache] == first[cache], "a good cache file was written again", state=kind)
            M.ev("not_rewritten")
    elif writable:
        M.true(os.path.isfile(cache) and before.get(cache) != first[cache], "no cache was written", state=kind)
        M.ev("cache_written")
    finish(M, start(folder, cwd, "light"), kind + ", second start", "light")
    second = snap(M.scratch, vk.TTPDIR)
    if writable:
        M.true(first[cache] == second[cache], "cache file written by a start was not usable for the next one", state=kind)
        M.ev("cache_reused")
    M.case(("state", kind, mode, M.detail.get("size")), nontrivial=kind != "absent", sample=kind)


PARSE_T = "<group name=\"r*\">\nrow {{ n | to_int }} {{ v | upper | startswith_re(\"[A-Z]\") | let(\"seen\", \"yes\") }}\n</group>"
PARSE_D = "row 1 x\nrow 2 9\nrow 3 z\n"
PARSE_R = [[{"r": [{"n": 1, "v": "X", "seen": "yes"}, {"n": 3, "v": "Z", "seen": "yes"}]}]]


def in_process(M, folder, what):
    from ttp import ttp
    old = os.environ.get("TTPCACHEFOLDER")
    os.environ["TTPCACHEFOLDER"] = folder
    try:
        p = ttp(data=PARSE_D, template=PARSE_T)
        p.parse(one=True)
        r = p.result()
    finally:
        os.environ["TTPCACHEFOLDER"] = old
    M.eq(r, PARSE_R, "results with this state of the cache", state=what)
    tab = {k: sorted(str(x) for x in v) for k, v in p._ttp_.items() if isinstance(v, dict)}
    src = source_tables() if "src" not in REF else REF["src"]
    REF["src"] = src
    M.true(all(tab.get(k) == v for k, v in src.items()), "functions available with this state of the cache", state=what, got={k: tab.get(k) for k, v in src.items() if tab.get(k) != v})
    M.ev("tables_checked")
    M.ev("in_process")


def case_inside(rng, M):
    """states met by parsers of one process, a truncation point or damage at a time"""
    folder = os.path.join(M.scratch, "cache")
    os.makedirs(folder)
    cache = os.path.join(folder, NAME)
    done = []
    for _ in range(6):
        kind = rng.choice(["truncated", "truncated", "truncated", "random", "object", "other_version", "python2", "tail", "empty", "gone"])
        if kind == "gone":
            if os.path.exists(cache):
                os.unlink(cache)
            size = None
        else:
            data = damage(rng, M, kind)
            size = len(data)
            with open(cache, "wb") as f:
                f.write(data)
            if kind == "truncated":
                done.append(size)
        M.note(state=kind, size=size)
        in_process(M, folder, (kind, size))
        a = os.stat(cache).st_mtime_ns, os.path.getsize(cache)
        in_process(M, folder, "second parser after %s %s" % (kind, size))
        M.true((os.stat(cache).st_mtime_ns, os.path.getsize(cache)) == a, "cache file written by a start was not usable for the next one", state=kind)
        M.ev("cache_reused")
        done.append((kind, size))
    M.case(("inside", tuple(done)), sample=str(done))


def case_points(rng, M):
    """consecutive truncation points: the thorough tier goes through all of them"""
    b = good_bytes()
    folder = os.path.join(M.scratch, "cache")
    os.makedirs(folder)
    cache = os.path.join(folder, NAME)
    k = M.case_id["index"]
    n = 16
    step = -(-len(b) // n)
    points = [k + i * step for i in range(n)] if k < step else [rng.randrange(len(b)) for _ in range(n)]
    for i in points:
        if i >= len(b):
            continue
        with open(cache, "wb") as f:
            f.write(b[:i])
        M.note(truncated_at=i)
        in_process(M, folder, "truncated at %d" % i)
        M.ev("truncated")
    M.case(("points", tuple(points)), sample=str(points))


def case_limit(rng, M):
    """the write of the cache fails at some size; then the writer is killed at some moment"""
    folder, cwd = os.path.join(M.scratch, "cache"), os.path.join(M.scratch, "cwd")
    os.makedirs(folder)
    os.makedirs(cwd)
    if rng.random() < 0.5:
        n = rng.choice([0, 1, 100, 4096, rng.randint(1, 9000)])

        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        M.note(size_limit=n)
        finish(M, start(folder, cwd, "light", pre=pre), "write limited to %d bytes" % n, "light")
        M.ev("limited_write")
        sig = ("limit", n)
    else:
        acts = 0
        for _ in range(rng.randint(1, 4)):
            p = start(folder, cwd, "light")
            t = rng.uniform(0.02, 0.35)
            # end it when the file shows up or at a random moment
            end = time.time() + t
            watch = rng.random() < 0.5
            while time.time() < (end if not watch else end + 2) and p.poll() is None:
                if watch and os.path.exists(os.path.join(folder, NAME)):
                    break
                time.sleep(0.0005)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.communicate()
            M.ev("killed")
            acts += 1
            if rng.random() < 0.3 and os.path.exists(os.path.join(folder, NAME)) and rng.random() < 0.5:
                os.unlink(os.path.join(folder, NAME))
        sig = ("killed", acts, os.path.getsize(os.path.join(folder, NAME)) if os.path.exists(os.path.join(folder, NAME)) else None)
        M.note(killed=sig)
    finish(M, start(folder, cwd, "light"), str(sig), "light")
    finish(M, start(folder, cwd, "full"), str(sig) + " again", "full")
    M.ev("cache_written", int(os.path.getsize(os.path.join(folder, NAME)) > 0))
    M.case(sig + (M.case_id["index"],), sample=str(sig))


def vandal(rng, cache, stop, acts):
    b = good_bytes()
    while not stop.is_set():
        try:
            k = rng.randrange(6)
            if k == 0:
                if os.path.exists(cache):
                    os.unlink(cache)
            elif k == 1:
                with open(cache, "r+b") as f:
                    f.truncate(rng.randint(0, len(b)))
            elif k == 2:
                with open(cache, "wb") as f:
                    f.write(b[:rng.randint(0, len(b))])
            elif k == 3:
                with open(cache, "wb") as f:
                    f.write(b"junk" * rng.randint(0, 100))
            elif k == 4:
                t = cache + ".tmp"
                with open(t, "wb") as f:
                    f.write(other_version(rng))
                os.replace(t, cache)
            else:
                with open(cache, "wb") as f:
                    for i in range(0, len(b), 2048):
                        f.write(b[i:i + 2048])
                        f.flush()
                        time.sleep(0.002)
            acts.append(k)
        except OSError:
            pass
        time.sleep(rng.choice([0, 0.001, 0.003, 0.01]))


def case_race(rng, M):
    """several processes start at the same time over one cache file, with or without somebody damaging it"""
    folder, cwd = os.path.join(M.scratch, "cache"), os.path.join(M.scratch, "cwd")
    os.makedirs(folder)
    os.makedirs(cwd)
    cache = os.path.join(folder, NAME)
    good_bytes()
    reference("light")
    kind = rng.choice(["absent", "truncated", "other_version", "fresh", "random"])
    if kind != "absent":
        with open(cache, "wb") as f:
            f.write(good_bytes() if kind == "fresh" else damage(rng, M, kind))
    stop, acts = threading.Event(), []
    t = None
    if rng.random() < 0.6:
        t = threading.Thread(target=vandal, args=(random.Random(rng.random()), cache, stop, acts))
        t.start()
    try:
        ps = [start(folder, cwd, "light") for _ in range(rng.randint(2, 6))]
        err = None
        for p in ps:
            try:
                finish(M, p, "concurrent start over " + kind, "light")
                M.ev("race_children")
            except Exception as e:
                err = err or e
        if err:
            raise err
    finally:
        stop.set()
        if t:
            t.join()
    M.ev("race")
    M.ev("vandal_acts", len(acts))
    # whatever was left behind, the next start is right, and the one after it uses what that wrote
    finish(M, start(folder, cwd, "light"), "after concurrent starts", "light")
    a = snap(folder).get(cache)
    finish(M, start(folder, cwd, "light"), "second after concurrent starts", "light")
    M.true(snap(folder).get(cache) == a and a, "cache file written by a start was not usable for the next one")
    M.ev("cache_reused")
    M.case(("race", kind, len(ps), tuple(acts[:20])), sample=kind)


def case_places(rng, M):
    """folder of the package itself, script form of the program, an unprivileged user, worker processes"""
    cwd = os.path.join(M.scratch, "cwd")
    os.makedirs(cwd)
    kind = rng.choice(["package", "script", "user", "multi"])
    if kind == "package":
        pk = os.path.join(M.scratch, "pk")
        shutil.copytree(vk.TTPDIR, os.path.join(pk, "ttp"), ignore=shutil.ignore_patterns("__pycache__", "*.pickle"))
        before = snap(M.scratch)
        finish(M, start(None, cwd, "light", package=pk), "package folder", "light")
        after = snap(M.scratch)
        cache = os.path.join(pk, "ttp", NAME)
        new = [p for p in after if before.get(p) != after[p]]
        M.true(new == [cache], "files written by a start with no cache folder configured", got_files=new)
        moved = os.path.join(M.scratch, "moved")
        shutil.move(pk, moved)
        finish(M, start(None, cwd, "full", package=moved), "package moved together with its cache", "full")
        # configured folder is used in place of the package folder, whatever is in the latter
        with open(os.path.join(moved, "ttp", NAME), "wb") as f:
            f.write(b"junk")
        other = os.path.join(M.scratch, "other")
        os.makedirs(other)
        finish(M, start(other, cwd, "light", package=moved), "configured folder", "light")
        with open(os.path.join(moved, "ttp", NAME), "rb") as f:
            M.eq(f.read(), b"junk", "file in the folder that is not configured")
        M.true(os.path.isfile(os.path.join(other, NAME)), "no cache was written in the configured folder")
        M.ev("default_folder")
    elif kind == "script":
        # the program run as a script and imported as a package, sharing one cache folder
        folder = os.path.join(M.scratch, "cache")
        os.makedirs(folder)
        d, t = M.write("d/data.txt", PARSE_D), M.write("t.txt", PARSE_T)
        for _ in range(rng.randint(2, 4)):
            if rng.random() < 0.6:
                e = env_for(folder, cwd)
                e.pop("PYTHONPATH")
                r = subprocess.run([sys.executable, os.path.join(vk.TTPDIR, "ttp.py"), "-d", d, "-t", t, "-o", "json", "--one"], env=e, cwd=cwd, capture_output=True, text=True, timeout=100)
                M.ev("starts")
                try:
                    got = json.loads(r.stdout)
                except ValueError:
                    got = None
                M.eq(got, PARSE_R, "results printed by the script", output=r.stdout[-500:], error=r.stderr[-1500:])
                M.ev("state_script")
            else:
                finish(M, start(folder, cwd, "light"), "after script", "light")
    elif kind == "user":
        folder = os.path.join(M.scratch, "cache")
        os.makedirs(folder)
        cache = os.path.join(folder, NAME)
        state = rng.choice(["readonly_folder", "unreadable_file", "readonly_file", "no_access"])
        with open(cache, "wb") as f:
            f.write(rng.choice([good_bytes(), b"junk", good_bytes()[:500]]))
        if state == "readonly_folder" and rng.random() < 0.5:
            os.unlink(cache)
        if state == "unreadable_file":
            os.chmod(cache, 0)
        elif state == "readonly_file":
            os.chmod(cache, 0o444)
        os.chmod(folder, {"no_access": 0o700}.get(state, 0o755))
        for p in (os.environ["VERIF_SCRATCH"], os.path.dirname(M.scratch), M.scratch, cwd):
            os.chmod(p, os.stat(p).st_mode | 0o055)
        before = snap(M.scratch)
        try:
            p = start(folder, cwd, "light", user=65534)
        except (PermissionError, OSError):
            M.ev("user_not_possible")
            return
        try:
            finish(M, p, state, "light")
        except vk.Violation as e:
            if "PermissionError" in str(e.detail.get("error")) and "ttp_dict_cache" not in str(e.detail.get("error")) and "/ttp/ttp.py" not in str(e.detail.get("error")):
                # the interpreter or the sources cannot be read by this user here
                M.ev("user_not_possible")
                return
            raise
        M.eq(snap(M.scratch), before, "files after a start that may not write", state=state)
        M.ev("user")
    else:
        folder = os.path.join(M.scratch, "cache")
        st = rng.choice(["absent", "missing_folder", "truncated", "vandal"])
        if st != "missing_folder":
            os.makedirs(folder)
        if st == "truncated":
            with open(os.path.join(folder, NAME), "wb") as f:
                f.write(damage(rng, M, "truncated"))
        stop, acts = threading.Event(), []
        t = threading.Thread(target=vandal, args=(random.Random(rng.random()), os.path.join(folder, NAME), stop, acts)) if st == "vandal" else None
        if t:
            t.start()
        try:
            finish(M, start(folder, cwd, "multi"), "several processes, " + st, "multi")
        finally:
            stop.set()
            if t:
                t.join()
        M.ev("multi")
        M.ev("vandal_acts", len(acts))
    M.case(("places", kind, M.case_id["index"]), sample=kind)


KINDS = {"state": (case_state, 120, 6000), "inside": (case_inside, 40, 1500), "points": (case_points, 16, 700), "limit": (case_limit, 40, 2500), "race": (case_race, 20, 1200), "places": (case_places, 48, 2500)}
