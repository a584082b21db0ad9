"""Runs scenarios against the library of /repo's working tree.

usage: worker.py SCENARIOS.ndjson OUT_DIR
Writes OUT_DIR/trace.ndjson for the trace specification and OUT_DIR/log.json.

Every scenario runs in one of JOBS processes.  A process that dies (or runs out
of memory) costs the scenario it was running, which is recorded as a crash, and
a scenario that does not end is recorded as a timeout.
"""
import json
import os
import resource
import select
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

LIMIT = 60              # seconds for a scenario (they take well under one)
LATE = 5                # the same once SLOW scenarios did not end
SLOW = 4


def run(driver, q):
    return json.dumps(driver.execute(q["scen"], q["limit"])) + "\n"


def apart(driver, q):
    """in a process of its own"""
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(a)
            with os.fdopen(b, "w") as fp:
                fp.write(run(driver, q))
        finally:
            os._exit(0)
    os.close(b)
    with os.fdopen(a) as fp:
        text = fp.read()
    os.waitpid(pid, 0)
    if not text.endswith("\n"):
        os._exit(3)
    return text


def child(r, w):
    import driver
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    fin, fout = os.fdopen(r, "r"), os.fdopen(w, "w")
    for line in fin:
        q = json.loads(line)
        # the registry of formats belongs to the process
        alone = any(o["op"] == "rgstart" for o in q["scen"]["ops"])
        fout.write((apart if alone else run)(driver, q))
        fout.flush()
    os._exit(0)


class Proc:
    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                child(a, d)
            except BaseException as e:
                print("worker: %r" % e, file=sys.stderr)
            finally:
                os._exit(3)
        os.close(a)
        os.close(d)
        self.to, self.frm, self.buf, self.job = b, c, b"", None

    def give(self, i, scen, limit):
        self.job = i
        data = (json.dumps({"scen": scen, "limit": limit}) + "\n").encode()
        try:
            while data:
                data = data[os.write(self.to, data):]
        except BrokenPipeError:
            pass

    def end(self):
        os.close(self.to)
        os.close(self.frm)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


def run_all(scens, jobs):
    res = [None] * len(scens)
    todo = list(range(len(scens)))[::-1]
    slow = [0]
    procs = []

    def feed(p):
        if todo:
            i = todo.pop()
            p.give(i, scens[i], LATE if slow[0] >= SLOW else LIMIT)
        else:
            procs.remove(p)
            p.end()

    for _ in range(min(jobs, len(scens))):
        procs.append(Proc())
    for p in list(procs):
        feed(p)
    while procs:
        ready, _, _ = select.select([p.frm for p in procs], [], [])
        for p in list(procs):
            if p.frm not in ready:
                continue
            chunk = os.read(p.frm, 1 << 20)
            if not chunk:                       # it died
                i = p.job
                procs.remove(p)
                p.end()
                slow[0] += 1
                res[i] = {"id": scens[i]["id"], "log": ["the process died"], "timeout": False,
                          "ev": [{"op": "crash", "ok": False, "h": 0, "new": 0, "obs": []}]}
                n = Proc()
                procs.append(n)
                feed(n)
                continue
            p.buf += chunk
            if p.buf.endswith(b"\n"):
                res[p.job] = json.loads(p.buf)
                p.buf = b""
                slow[0] += res[p.job]["timeout"]
                feed(p)
    return res


def main():
    src, out = sys.argv[1], sys.argv[2]
    import ucis
    want = os.environ.get("UCIS_SRC", "/repo/src")
    if not os.path.abspath(ucis.__file__).startswith(want + "/"):
        sys.exit("library loaded from %s, not from %s" % (ucis.__file__, want))
    import driver                       # noqa: F401  (loaded once, before forking)
    with open(src) as fp:
        scens = [json.loads(l) for l in fp if l.strip()]
    if any(o["op"] == "nnew" for s in scens for o in s["ops"]):
        import native
        os.environ["NATIVE_LIB"] = native.compile_to(out)
    res = run_all(scens, int(os.environ.get("JOBS", "8")))
    # the longest traces first
    texts = [json.dumps({"id": r["id"], "ev": r["ev"]}) for r in res]
    with open(os.path.join(out, "trace.ndjson"), "w") as fp:
        for i in sorted(range(len(res)), key=lambda i: -len(texts[i])):
            fp.write(texts[i] + "\n")
    with open(os.path.join(out, "log.json"), "w") as fp:
        json.dump({r["id"]: {"n": len(r["ev"]), "log": r["log"], "timeout": r["timeout"],
                             "ops": [e["op"] for e in r["ev"]]} for r in res}, fp)


if __name__ == "__main__":
    main()
