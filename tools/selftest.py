#!/usr/bin/env python3
"""Self-tests of the machinery against the current tree.

    tools/selftest.py shrink [SECONDS] [PROP...]   randomly damaged plans must not raise alarms,
                                                   so that minimisation cannot drift to a false one
    tools/selftest.py determinism [PROP...]        a seed gives the same run in every process
    tools/selftest.py channels                     channel idioms give under every schedule what they give
                                                   outside the simulation, repeatably
"""
import importlib.machinery, importlib.util, json, os, random, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
loader = importlib.machinery.SourceFileLoader("check", VERIF + "/check")
spec = importlib.util.spec_from_loader("check", loader)
check = importlib.util.module_from_spec(spec)
loader.exec_module(check)


def shrink(build, seconds, props):
    bad = 0
    for prop in props:
        end, n, fails = time.time() + seconds, 0, []

        def one(k):
            rnd = random.Random("%s %d" % (prop, k))
            runs = []
            for i in range(4):
                runs.append(check.plan_of(build, prop, rnd.randrange(10 ** 6), False))
            damaged = []
            for plan in runs:
                x = [plan]
                for depth in range(3):
                    for _ in range(rnd.choice([1, 3, 10, 30])):
                        c = rnd.choice(check.candidates(x))
                        if c[0] == "cut" and rnd.random() < 0.5 and c[3] > 1:
                            continue
                        y = check.apply(x, c)
                        if y:
                            x = y
                    damaged.append(json.loads(json.dumps(x[0])))
            for d in damaged:
                v, rep = check.replay(build, False, [d], timeout=60)
                if v:
                    return v, d
            return None

        with ThreadPoolExecutor(8) as pool:
            k = 0
            while time.time() < end and len(fails) < 6:
                for r in pool.map(one, range(k, k + 16)):
                    n += 1
                    if r:
                        fails.append(r)
                k += 16
        print(prop, n * 12, "damaged plans,", len(fails), "alarms", flush=True)
        for v, d in fails[:6]:
            print("  ", v["class"], v["msg"][:400].replace("\n", " | "))
            print("     ", json.dumps(d)[:int(os.environ.get("SHOW", "600"))])
        bad += len(fails)
    return bad


def determinism(build, props):
    bad = 0
    for prop in props:
        for race in (False, True):
            if race and not check.PROPS[prop].get("race"):
                continue
            def one(i):
                n = 400 if not race else 120
                rep, name = check.harness(build.bins[race], ["run", "-prop", prop, "-seed", "77000", "-n", str(n)], 300)
                check.forget(name)
                return rep["hash"]
            with ThreadPoolExecutor(8) as pool:
                hs = set(pool.map(one, range(16)))
            print(prop, "race" if race else "plain", "ok" if len(hs) == 1 else "DIFFERENT: %s" % hs, flush=True)
            bad += len(hs) != 1
    return bad


def channels():
    """Builds tools/chan, instrumented like the repository, in a copy of it."""
    tmp = tempfile.mkdtemp(prefix="verifsim-chan-")
    try:
        repo, w = tmp + "/repo", tmp + "/w"
        os.mkdir(w)
        sh = lambda c, cwd=tmp: subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, check=True)
        sh("git clone -q %s %s" % (check.REPO, repo))
        for d, n in (("pkg/chx", "idioms.go"), ("cmd/chx", "main.go")):
            os.makedirs("%s/%s" % (repo, d))
            shutil.copy("%s/tools/chan/%s.txt" % (VERIF, n), "%s/%s/%s" % (repo, d, n))
        for n in ("go.mod", "go.sum"):
            shutil.copy("%s/%s" % (repo, n), w)
        with open(w + "/go.mod", "a") as f:
            f.write("\nrequire verifsim.local/hook v0.0.0\nreplace verifsim.local/hook => %s/sim/hook\n" % VERIF)
        sh("GOFLAGS=-mod=mod go build -o %s/instr ." % w, VERIF + "/sim/instr")
        sh("%s/instr -repo %s -out %s -sim %s/sim -modfile %s/go.mod" % (w, repo, w, VERIF, w))
        for race in ("", "-race"):
            sh("go build -modfile=%s/go.mod -overlay=%s/overlay.json %s -o %s/chx ./cmd/chx && %s/chx" % (w, w, race, w, w), repo)
        return 0
    except subprocess.CalledProcessError:
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


check.WORK = tempfile.mkdtemp(prefix="verifsim-self-")
try:
    a = sys.argv[1:] or ["determinism"]
    props = [x for x in a[1:] if x in check.PROPS] or sorted(check.PROPS)
    secs = [float(x) for x in a[1:] if x not in check.PROPS] or [20.0]
    if a[0] == "channels":
        sys.exit(channels())
    b = check.Build(race=a[0] == "determinism")
    sys.exit(1 if (shrink(b, secs[0], props) if a[0] == "shrink" else determinism(b, props)) else 0)
finally:
    shutil.rmtree(check.WORK, ignore_errors=True)
