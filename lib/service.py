"""Drives the real HTTP service: builds it from /repo, runs it in a folder of
its own on the loopback interface, and records requests and answers."""
import http.client, json, os, random, signal, socket, threading, time, urllib.parse
import verif

VOCAB = """galaxy galaxies Galaxy GALAXY swift Swift survey surveys redshift running runs runner star stars Stars cluster clusters
 nation national nationalization ação Ação cação coração café Café naive naïve the The and of to é não para x ray rays x1 2004 3rd
 don't boys' it's survey's Übermaß über привет 東京 dark matter darkly energies energy hot hotter big data datum models model""".split()
SEPS = [" ", " ", " ", ", ", ". ", "\n", "\t", " - ", "/", "; ", " (", ") ", "\u00a0", "…", "!!", " 🙂 "]
IDS = ["doc-%d", "%d", "a/b/%d", "é %d", "../%d", "x%%2F%d", "http://x.y/%d?z=1", "%d\n", "DOC %d", "\"%d\"", "docs%d", "日本%d"]


def forms(ctx):
    """The normal form of every word of the vocabulary."""
    binary = verif.build(ctx)
    tr = verif.drive(ctx, binary, "TestWords", [{"id": 0, "words": VOCAB}], jobs=1,
                     env={"VERIF_STOPWORDS": os.path.join(verif.VERIF, "data", "stopwords.json")})
    return json.loads(open(tr[0]).readline())["forms"]


def build_server(ctx):
    out = ctx.path("server")
    env = verif.go_env()
    env["GOFLAGS"] = "-mod=readonly"
    r = verif.run(["go", "build", "-race", "-o", out, "."], cwd=verif.REPO, env=env)
    if r.returncode != 0:
        raise verif.CheckError("the service does not build:\n" + r.err[-3000:])
    return out


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Server:
    def __init__(self, binary, cwd):
        self.binary, self.cwd, self.p, self.n = binary, cwd, None, 0

    def start(self):
        for _ in range(3):  # the port may be taken in between
            self.port = free_port()
            self.n += 1
            self.log = os.path.join(self.cwd, "log%d" % self.n)
            env = dict(os.environ, PORT=str(self.port), GIN_MODE="release", GORACE="halt_on_error=1", GOTRACEBACK="all")
            os.makedirs(os.path.join(self.cwd, "w"), exist_ok=True)
            with open(self.log, "wb") as f:
                self.p = verif.spawn([self.binary], cwd=os.path.join(self.cwd, "w"), env=env, stdout=f, stderr=f)
            end = time.time() + 60
            while time.time() < end and self.p.poll() is None:
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    return True, ""
                except OSError:
                    time.sleep(0.05)
            if "address already in use" not in self.tail():
                break
        return False, self.tail()

    def tail(self):
        try:
            t = open(self.log, errors="replace").read()
        except OSError:
            return ""
        keep = [x for x in t.splitlines() if "DATA RACE" in x or x.startswith(("panic", "fatal")) or "goirlib/" in x]
        return " | ".join(keep[:12]) or t[-600:]

    def stop(self):
        if self.p and self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL)
        if self.p:
            self.p.wait()

    def request(self, method, path, body=None, headers=None):
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=60)
        try:
            c.request(method, path, body=body, headers=headers or {})
            r = c.getresponse()
            return r.status, r.read()
        finally:
            c.close()


class Run:
    def __init__(self, ctx, binary, norm, b):
        self.ctx, self.norm, self.b = ctx, norm, b
        self.h = b["acts"][0]
        self.rng = random.Random(self.h["seed"])
        self.words = self.rng.sample(VOCAB, min(self.h["nv"], len(VOCAB)))
        ids = self.rng.sample(IDS, len(IDS))
        self.ids = {d: ids[d % len(ids)] % d for d in range(1, self.h["nd"] + 9)}
        self.back = {v: "d%d" % k for k, v in self.ids.items()}
        self.cwd = ctx.path("srv", str(b["id"]), "x")[:-2]
        self.srv = Server(binary, self.cwd)
        self.events, self.lock = [], threading.Lock()
        self.dead = False

    def emit(self, e):
        with self.lock:
            self.events.append(e)

    def text(self, ws, rng, plain=False):
        """The words as they are written, and their normal forms."""
        out, nf = [], []
        if plain: # always the same way
            ws = [self.words[(w - 1) % len(self.words)] for w in ws]
            return " ".join(ws), [self.norm[w] for w in ws if self.norm[w]]
        for w in ws:
            c = self.words[(w - 1) % len(self.words)]
            if rng.random() < 0.3:
                c = "".join(x.upper() if "a" <= x <= "z" and rng.random() < 0.5 else x for x in c)
                f = self.norm.get(c) or self.norm[self.words[(w - 1) % len(self.words)]]
            f = self.norm[self.words[(w - 1) % len(self.words)]]
            if f:
                nf.append(f)
            out.append(c)
            out.append(rng.choice(SEPS))
        return "".join(out), nf

    def failed(self, what, e):
        self.emit({"k": "bad", "cat": "failed", "what": "%s: %r %s" % (what, e, self.srv.tail() if self.srv.p.poll() is not None else "")})
        self.dead = True

    def request(self, who, r, rng):
        if self.dead:
            return
        if r["k"] == "post":
            title, tn = self.text(r["title"], rng)
            text, xn = self.text(r["text"], rng)
            doc = {"id": self.ids[r["d"]], "title": title, "text": text}
            if not r["title"] and r["form"] % 2:
                del doc["title"]
            if not r["text"] and r["form"] % 3:
                del doc["text"]
            if r["form"] == 7:
                doc["other"] = {"a": [1, 2]}
            body = json.dumps(doc, ensure_ascii=r["form"] % 2 == 0).encode()
            self.emit({"k": "call", "who": who, "op": "post", "d": "d%d" % r["d"], "title": tn, "text": xn})
            try:
                st, _ = self.srv.request("POST", "/nir", body, {"Content-Type": "application/json"} if r["form"] % 4 else {})
            except Exception as e:
                return self.failed("POST", e)
            self.emit({"k": "ret", "who": who, "status": st})
        elif r["k"] == "bad":
            i = self.ids[r["d"]]
            what = [b"", b"{", b"[]", b"\"x\"", b"{\"title\": \"galaxy\"}", b"{\"id\": \"\", \"title\": \"galaxy\", \"text\": \"swift\"}",
                    json.dumps({"id": 7, "title": "galaxy"}).encode(), json.dumps({"id": i, "title": 7}).encode(),
                    json.dumps({"id": i, "text": ["galaxy"]}).encode(), json.dumps({"id": i, "title": "galaxy swift"}).encode()[:-1],
                    json.dumps({"id": None, "title": "galaxy", "text": "survey"}).encode(), b"\x00\xff"][r["form"]]
            try:
                st, _ = self.srv.request("POST", "/nir", what, {"Content-Type": "application/json"})
            except Exception as e:
                return self.failed("POST", e)
            self.emit({"k": "badpost", "status": st, "what": what.decode("latin1")})
        else:
            q, qn = self.text(r["q"], rng, r["form"] < 5)
            if r["form"] == 9 and not r["q"]:
                path = "/nir"
            else:
                path = "/nir?" + urllib.parse.urlencode({"query": q})
            self.emit({"k": "call", "who": who, "op": "get", "q": qn})
            try:
                st, body = self.srv.request("GET", path)
                ans = json.loads(body) if st == 200 else {}
            except Exception as e:
                return self.failed("GET " + path[:300], e)
            rs = ans.get("queryResults") or []
            sims = [x["similarity"] for x in rs]
            self.emit({"k": "ret", "who": who, "status": st, "total": ans.get("total", -1),
                       "res": [self.back.get(x["document"]["id"], "?" + x["document"]["id"]) for x in rs],
                       "sims": ["%.17g" % s for s in sims], "desc": all(a >= b for a, b in zip(sims, sims[1:]))})

    def settle(self, wait, quiet=14, most=75):
        """Everything is on disk after 20 seconds and the time the writing takes,
        which is over when nothing changes for a whole round of saving."""
        start = changed = time.time()
        last = None
        while self.srv.p.poll() is None:
            now = []
            for d, _, fs in os.walk(self.cwd):
                for f in fs:
                    if not f.startswith("log"):
                        try:
                            st = os.stat(os.path.join(d, f))
                            now.append((d, f, st.st_ino, st.st_size, st.st_mtime_ns))
                        except OSError:
                            pass
            now.sort()
            t = time.time()
            if now != last:
                last, changed = now, t
            if t - start >= most or t - start >= wait and t - changed >= quiet:
                break
            time.sleep(0.5)

    def restart(self, wait):
        if self.dead:
            return
        self.settle(wait)
        if self.srv.p.poll() is not None:
            return self.failed("stopped", self.srv.p.returncode)
        self.srv.stop()
        ok, err = self.srv.start()
        self.emit({"k": "restart", "ok": ok, "err": err})
        self.dead = not ok

    def run(self):
        self.emit({"k": "begin", "tid": self.b["id"], "profile": self.h["profile"]})
        try:
            ok, err = self.srv.start()
            if not ok:
                self.emit({"k": "bad", "cat": "start", "what": err})
                return
            for a in self.b["acts"][1:]:
                if a["k"] == "restart":
                    self.restart(21.5)
                elif a["k"] == "par":
                    ts = []
                    for i, ops in enumerate(a["threads"]):
                        rng = random.Random(self.rng.random())
                        ts.append(threading.Thread(target=lambda i=i, ops=ops, rng=rng: [self.request("c%d" % i, r, rng) for r in ops]))
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                else:
                    self.request("main", a, self.rng)
            if not self.dead and self.srv.p.poll() is not None:
                self.failed("stopped", self.srv.p.returncode)
        finally:
            self.srv.stop()
