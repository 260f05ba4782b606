"""The deductive part: extract the functions under contract from /repo, have Verus discharge every
obligation, probe the contracts for vacuity.  See DESIGN.md, "Decision"."""
import glob, json, os, re, shutil, subprocess, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
REPO = "/repo"
EXTRACT = os.path.join(V, "extract", "target", "debug", "extract")


def props():
    return json.load(open(os.path.join(SPEC, "props.json")))


def shapes():
    return json.load(open(os.path.join(SPEC, "shapes.json")))


def has(prop):
    return prop in props()


def keys_of(prop):
    """the functions whose bodies are verified for this property: its own and those they rest on"""
    p = props()
    calls = json.load(open(os.path.join(SPEC, "calls.json")))
    out = []

    def add(k):
        if k.startswith("@"):
            for j in p[k[1:]]["verify"]:
                add(j)
        elif k not in out:
            out.append(k)
            for c in calls.get(k, []):
                add(c)
    for k in p[prop]["verify"]:
        add(k)
    return out


def callees(f, keys):
    """the functions under contract this one may call, by name (an over-approximation)"""
    out = set()
    for c in f.get("calls", []):
        if c.startswith("."):
            out |= {k for k in keys if k.rsplit("::", 1)[-1] == c[1:]}
        elif "::" in c:
            t, n = c.rsplit("::", 1)
            t = t.split("::")[-1]
            out |= {k for k in keys if k.rsplit("::", 1)[-1] == n and k.startswith((t + "::", t + " as "))}
        else:
            out |= {k for k in keys if k == c}
    return sorted(out - {f["key"]})


def subseq(a, b):
    """is list a obtained from b by deletions only?"""
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def run_verus(path, cwd, rlimit, seed, threads, timeout, extra=()):
    cmd = ["verus", os.path.basename(path), "--crate-type=lib", "--triggers-mode", "silent", "--no-report-long-running",
           "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--num-threads", str(threads), "--multiple-errors", "2", *extra]
    if seed:
        cmd += ["--smt-option", f"smt.random_seed={seed}"]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return {"timeout": True, "cmd": cmd, "err": "", "json": None, "wall": time.time() - t0}
    try:
        j = json.loads(out[out.index("{"):])
    except ValueError:
        j = None
    return {"timeout": False, "cmd": cmd, "err": err, "json": j, "wall": time.time() - t0}


def error_blocks(err, base):
    """[(message, first line number in the generated file, all line numbers, text)]"""
    blocks = re.split(r"\n(?=(?:error|warning|note)(?:\[\w+\])?: )", "\n" + err)
    out = []
    for b in blocks:
        b = b.lstrip("\n")
        if not b.startswith("error"):
            continue
        msg = b.split("\n", 1)[0]
        m = re.search(r"--> " + re.escape(base) + r":(\d+):", b)
        lines = [int(x) for x in re.findall(r"^\s*(\d+) [|/]", b, re.M)]
        out.append((msg, int(m.group(1)) if m else None, lines, b))
    return out


SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
            "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied", "could not prove termination",
            "possible bit shift underflow/overflow", "recommendation not met", "unable to prove", "failed this postcondition", "requires not satisfied")


def dep_source():
    """the source of the version of bellpepper-core that the repository is built with"""
    m = re.search(r'name = "bellpepper-core"\nversion = "([^"]+)"', open(os.path.join(REPO, "Cargo.lock")).read())
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    ds = glob.glob(os.path.join(home, "registry", "src", "*", "bellpepper-core-" + m.group(1), "src")) if m else []
    return ds[0] if len(ds) == 1 else None


def run_deps(d):
    """the contracts of spec/c_deps.rs, verified on bellpepper's own source"""
    try:
        src = dep_source()
        if not src:
            return {"ok": False, "why": "the source of bellpepper-core was not found"}
        g, gj = os.path.join(d, "deps.rs"), os.path.join(d, "deps.json")
        p = subprocess.run([EXTRACT, "deps", src, SPEC, g, gj], capture_output=True, text=True)
        if p.returncode != 0:
            return {"ok": False, "why": "extraction failed: " + p.stderr[-300:]}
        meta = json.load(open(gj))
        bad = [f"{f['key']}: {f['error']}" for f in meta["functions"] if f.get("error")] + meta["problems"]
        if bad:
            return {"ok": False, "why": "; ".join(bad)[:400]}
        r = run_verus(g, d, 30, 0, 2, 300)
        vr = r["json"]["verification-results"] if r.get("json") else {}
        if not vr.get("success") or vr.get("errors"):
            return {"ok": False, "why": "Verus does not accept it: " + r["err"][-300:]}
        return {"ok": True, "functions": [f["key"] for f in meta["functions"]], "source": src.split("/registry/src/")[1].split("/", 1)[1],
                "obligations": vr["verified"], "solver_ms": r["json"]["times-ms"]["smt"]["smt-run"]}
    except Exception as e:  # noqa
        return {"ok": False, "why": f"{type(e).__name__}: {e}"}


class Job:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.status, self.reason, self.failed, self.output = "unknown", "", [], ""
        self.res, self.probe, self.meta = None, None, None
        self.dir = tempfile.mkdtemp(prefix="vproof.")
        self.th = threading.Thread(target=self._run, daemon=True)
        self.th.start()

    def stop(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def finish(self):
        self.th.join()
        shutil.rmtree(self.dir, ignore_errors=True)
        return self

    def _run(self):
        try:
            self._go()
        except Exception as e:  # noqa
            self.status, self.reason = "unknown", f"{type(e).__name__}: {e}"

    def unknown(self, why):
        self.status, self.reason = "unknown", why

    def _go(self):
        d = self.dir
        self.keys = keys_of(self.prop)
        g, gj = os.path.join(d, "g.rs"), os.path.join(d, "g.json")
        while True:
            p = subprocess.run([EXTRACT, REPO, SPEC, g, gj, ",".join(self.keys)], capture_output=True, text=True)
            if p.returncode != 0:
                return self.unknown("extraction failed: " + (p.stderr or p.stdout)[-500:])
            meta = self.meta = json.load(open(gj))
            fs = {f["key"]: f for f in meta["functions"]}
            # what the functions call now, if that is more than what they called
            known = json.load(open(os.path.join(SPEC, "calls.json")))
            new = {c for k in self.keys if k in fs for c in callees(fs[k], list(fs)) if c not in known.get(k, [])} - set(self.keys)
            if not new:
                break
            self.keys += sorted(new)
        bad = [f"{k}: {fs[k]['error'] if k in fs else 'not found'}" for k in self.keys if k not in fs or fs[k].get("error")]
        bad += [str(x) for x in meta["problems"] if any(str(x).startswith(k + ":") or f" {k} " in str(x) for k in self.keys)]
        if bad:
            return self.unknown("not extracted: " + "; ".join(bad)[:600])
        self.text = open(g).read()
        # the vacuity probe runs beside the proof
        pr = os.path.join(d, "p.rs")
        names = self.make_probe(pr)
        pres = {}
        th = threading.Thread(target=lambda: pres.update(run_verus(pr, d, 4, 0, 3, 500, ("--verify-only-module", "body"))), daemon=True)
        th.start()
        self.deps = {}
        td = threading.Thread(target=lambda: self.deps.update(run_deps(d)), daemon=True)
        td.start()
        r = run_verus(g, d, 30 if self.tier == "quick" else 60, 0, 5, 600)
        st = self.classify(r, fs, "g.rs")
        if st == "rejected":
            # once more, other seed, more resources, and what is known before a loop known in it: only a repeated failure counts
            first = list(self.failed)
            L = self.text.split("\n")
            for k in {k for k, _ in first}:
                for n in range(fs[k]["start"] - 1, fs[k]["end"]):
                    if re.match(r"^(pub )?fn ", L[n]):
                        L[n] = "#[verifier::loop_isolation(false)] " + L[n]
                        break
            g2 = os.path.join(d, "g2.rs")
            open(g2, "w").write("\n".join(L))
            r2 = run_verus(g2, d, 100, 7, 8, 250)
            st2 = self.classify(r2, fs, "g2.rs")
            if st2 == "proved":
                r, st = r2, "proved"
                self.failed = []
            elif st2 != "rejected":
                st = st2
                self.failed = first
        th.join()
        td.join()
        self.res, self.probe = r, pres
        self.output = r["err"]
        if st == "proved":
            vac = self.vacuous(pres, names)
            if vac is None:
                return self.unknown("the vacuity probe gave no answer")
            if vac:
                return self.unknown("contract satisfied vacuously: " + ", ".join(vac))
            self.status = "proved"
            return
        if st == "unknown":
            return
        # rejected: is the source still the one the annotations were written for?
        base = shapes()
        for k in sorted({k for k, _ in self.failed}):
            if k not in base:
                return self.unknown(f"{k} has no baseline")
            s = fs[k]["shape"]
            if not subseq(s, base[k]) and not subseq(base[k], s):
                return self.unknown(f"{k} is not the code its annotations were written for (its structure changed), and Verus does not accept it with them")
        self.failed = [f"{k} ({fs[k]['file']}:{fs[k]['line']}): {m}" for k, m in self.failed]
        self.status = "rejected"

    def classify(self, r, fs, base):
        self.failed = []
        if r["timeout"]:
            self.reason = "Verus ran out of time"
            return "unknown"
        j = r["json"]
        vr = j.get("verification-results") if j else None
        if not vr or vr.get("encountered-vir-error") or (vr.get("encountered-error") and not vr.get("errors")):
            self.reason = "Verus does not take the extracted code: " + "; ".join(m for m, *_ in error_blocks(r["err"], base)[:4])[:600]
            return "unknown"
        if vr["success"] and vr["errors"] == 0:
            return "proved"
        where = [(f["start"], f["end"], k) for k, f in fs.items() if k in self.keys]
        for msg, line, lines, text in error_blocks(r["err"], base):
            if "aborting due to" in msg:
                continue
            low = msg.lower()
            if "resource limit" in low or "rlimit" in low:
                self.reason = "the solver ran out of resources: " + msg
                return "unknown"
            hit = None
            for n in ([line] if line else []) + lines:
                hit = next((k for a, b, k in where if a <= n <= b), None)
                if hit:
                    break
            if not hit:
                self.reason = "an auxiliary lemma is not discharged: " + msg
                return "unknown"
            if not any(s in low for s in SEMANTIC):
                self.reason = msg
                return "unknown"
            at = self.text.split("\n")[line - 1].strip() if line else ""
            post = re.findall(r"^\s*(\d+) [|/](.*)\n[^\n]*failed this postcondition", text, re.M)
            extra = f" [{post[0][1].strip(' |')}]" if post else ""
            self.failed.append((hit, (msg.replace("error: ", "") + (extra or f" [{at}]"))[:400]))
        if not self.failed:
            self.reason = "errors without a place"
            return "unknown"
        return "rejected"

    def make_probe(self, path):
        """every verified function again, claiming false: none may verify"""
        g = self.text.split("\n")
        names, out = {}, []
        for f in self.meta["functions"]:
            if f["key"] not in self.keys:
                continue
            b = list(g[f["start"] - 1:f["end"]])
            if any(re.match(r"^(pub )?impl\b.* for ", l) or re.match(r"^(pub )?trait ", l) for l in b):
                continue
            sig = None
            for i, l in enumerate(b):
                m = re.match(r"^(\s*(?:pub )?fn )(\w+)((?:<[^(]*>)?\(.*)$", l)
                if m and sig is None:
                    sig = i
                    nm = m.group(2) + "__probe"
                    b[i] = m.group(1) + nm + m.group(3)
                if sig is not None and re.match(r"^\s*ensures\b", l):
                    b[i] = re.sub(r"ensures", "ensures false, ", l, count=1)
                    break
            else:
                if sig is None:
                    continue
                b[sig] += "\n  ensures false,"
            names[nm] = f["key"]
            out += b
        k = max(i for i, l in enumerate(g) if l.startswith("} // mod body"))
        t = g[:k] + ["verus! {"] + out + ["}"] + g[k:]
        open(path, "w").write("\n".join(t))
        self.nprobe = len(names)
        return names

    def vacuous(self, pres, names):
        j = pres.get("json")
        if not j or "times-ms" not in j or j["verification-results"].get("encountered-vir-error"):
            return None
        seen, bad = {}, []
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m["function-breakdown"]:
                n = f["function"].split("::")[-1]
                if n.endswith("__probe"):
                    key = f["function"]
                    seen[key] = seen.get(key, True) and f["success"]
        for k, ok in seen.items():
            if ok:
                bad.append(k)
        self.probed = len(seen)
        return bad if seen else None

    def brief(self):
        return {"status": self.status, "reason": self.reason, "functions": self.keys if hasattr(self, "keys") else [], "failed": self.failed}

    def coverage(self):
        j = self.res["json"]
        vr = j["verification-results"]
        sm = j["times-ms"]["smt"]
        mine = []
        fb = [f for m in sm["smt-run-module-times"] for f in m["function-breakdown"]]
        for f in self.meta["functions"]:
            if f["key"] in self.keys:
                mine.append({"function": f["key"], "file": f["file"], "line": f["line"], "generated_lines": f["end"] - f["start"] + 1})
        clauses = len(re.findall(r"^\s*// obligation", self.text, re.M))
        return {
            "obligations": vr["verified"] + vr["errors"],
            "discharged": vr["verified"],
            "obligation_unit": "one Verus query set per function body or lemma (all its postconditions, callee preconditions, loop invariants, overflow and termination checks)",
            "functions_under_contract": mine,
            "lemmas_and_definitions_discharged": vr["verified"] - len(mine),
            "checker_cmd": "extract/target/debug/extract /repo spec g.rs g.json " + ",".join(self.keys) + " && " + " ".join(self.res["cmd"]),
            "back_end": "Verus 0.2026.09.13, Z3 4.12 (bundled)",
            "solver_ms": sm["smt-run"],
            "solver_rlimit": sm.get("rlimit-run"),
            "slowest": sorted(({"function": f["function"], "ms": f["time"]} for f in fb), key=lambda x: -x["ms"])[:5],
            "verus_wall_s": round(self.res["wall"], 1),
            "vacuity_probes": {"run": getattr(self, "probed", 0), "verified": 0 if self.status == "proved" else None,
                               "rule": "each function again with the postcondition false: none may verify"},
            "dependency_contracts": self.deps,
            "trusted_base": self.trusted(),
        }

    def trusted(self):
        t = self.text
        body = t[t.index("pub mod body"):] if "pub mod body" in t else ""
        root = t[:len(t) - len(body)]
        fn = re.compile(r"external_body\][^{;]*?\bfn (\w+)", re.S)
        src = {f["key"] for f in self.meta["functions"]}
        deps = body[:body.index("// Predicates on the repository's integers")] if "// Predicates on the repository's integers" in body else ""
        not_here = sorted(k for k in src if k not in self.keys)
        return [
            "Verus and Z3; the extractor (extract/, what it drops is listed in DESIGN.md)",
            f"spec/prelude.rs: {len(fn.findall(root))} assumed functions (field, constraint system, big integers, standard library), axioms "
            + ", ".join(sorted(set(re.findall(r"proof fn (ax_\w+)", root)))),
            (f"spec/c_deps.rs: {len(fn.findall(deps))} contracts on bellpepper gadgets, used here by contract and discharged in this run on the source of {self.deps['source']}"
             if self.deps.get("ok") else f"spec/c_deps.rs: {len(fn.findall(deps))} contracts on bellpepper gadgets, ASSUMED in this run ({self.deps.get('why')})"),
            "contracts of repository functions not re-verified in this run (verified by the checks of other properties, used only if called): " + (", ".join(not_here) or "none"),
            f"assume/admit in specifications: {len(re.findall(r'[^_a-z](assume|admit)[(]', t))}",
        ]

    def assumptions(self):
        return self.trusted()[1:] + ["sizes passed to 'as u32' casts and to Vec stay in range (preconditions of the contracts)",
                                     "the constraint system and the field behave as the prelude says; a variable's value is any field element"]


class RelJob(Job):
    """Two runs of every function side by side (spec/rel): what they allocate and enforce is the same."""

    def _go(self):
        d = self.dir
        g, gj = os.path.join(d, "g.rs"), os.path.join(d, "g.json")
        self.keys = []
        p = subprocess.run([EXTRACT, "rel", REPO, SPEC, g, gj], capture_output=True, text=True)
        if p.returncode != 0:
            return self.unknown("extraction failed: " + (p.stderr or p.stdout)[-500:])
        meta = self.meta = json.load(open(gj))
        fs = {f["key"]: f for f in meta["functions"]}
        self.keys = list(fs)
        bad = [f"{k}: {f['error']}" for k, f in fs.items() if f["error"]] + meta["problems"]
        if bad:
            return self.unknown("not doubled: " + "; ".join(bad)[:600])
        self.text = open(g).read()
        pr = os.path.join(d, "p.rs")
        names = self.make_probe(pr)
        pres = {}
        th = threading.Thread(target=lambda: pres.update(run_verus(pr, d, 4, 0, 3, 500)), daemon=True)
        th.start()
        self.deps = {}
        r = run_verus(g, d, 30 if self.tier == "quick" else 60, 0, 5, 600)
        st = self.classify(r, fs, "g.rs")
        if st == "rejected":
            first = list(self.failed)
            r2 = run_verus(g, d, 100, 7, 8, 250)
            st2 = self.classify(r2, fs, "g.rs")
            if st2 == "proved":
                r, st = r2, "proved"
                self.failed = []
            elif st2 != "rejected":
                st = st2
                self.failed = first
        th.join()
        self.res, self.probe = r, pres
        self.output = r["err"]
        if st == "proved":
            vac = self.vacuous(pres, names)
            if vac is None:
                return self.unknown("the vacuity probe gave no answer")
            if vac:
                return self.unknown("contract satisfied vacuously: " + ", ".join(vac))
            self.status = "proved"
            return
        if st == "rejected":
            # which data may depend on the witness is found by a heuristic: a rejection is no verdict by itself
            self.unknown("two runs are not shown to agree: " + "; ".join(f"{k}: {m}" for k, m in self.failed)[:600])

    def make_probe(self, path):
        g = self.text.split("\n")
        names, out = {}, []
        for f in self.meta["functions"]:
            b = list(g[f["start"] - 1:f["end"]])
            nm = f["name"] + "__probe"
            t = "\n".join(b).replace(f"pub fn {f['name']}", f"pub fn {nm}", 1)
            head, sep, rest = t.partition("\n{\n")
            head = re.sub(r"\n    ensures ", "\n    ensures false, ", head) if "\n    ensures " in head else head + "\n    ensures false,"
            out.append(head + sep + rest)
            g[f["start"] - 1] = "#[verifier::external_body] " + g[f["start"] - 1]
            names[nm] = f["key"]
        k = max(i for i, l in enumerate(g) if l.startswith("} // verus!"))
        open(path, "w").write("\n".join(g[:k] + out + g[k:]))
        self.nprobe = len(names)
        return names

    def coverage(self):
        c = Job.coverage(self)
        c["checker_cmd"] = "extract/target/debug/extract rel /repo spec g.rs g.json && " + " ".join(self.res["cmd"])
        c["obligation_unit"] = ("one Verus query set per doubled function (two runs side by side; equal traces and equal results but for the witness; "
                                "the same branches and the same number of iterations in both)")
        return c

    def trusted(self):
        fn = re.compile(r"external_body\][^{;]*?\bfn (\w+)", re.S)
        head = "\n".join(self.text.split("\n")[:min(f["start"] for f in self.meta["functions"]) - 1])
        dep = re.findall(r"pub fn (rel__\w+)", head)
        return [
            "Verus and Z3; the extractor and the doubling (extract/src/rel.rs, DESIGN.md section 6)",
            f"spec/rel: {len(fn.findall(head))} assumed functions: a library operation's result is a function of its arguments; a run that panics is not compared",
            "relational contracts on bellpepper gadgets, assumed: " + ", ".join(dep),
            "the two runs are compared when both return Ok; that a run without a witness returns Ok is covered by the bounded cases",
            f"assume/admit in specifications: {len(re.findall(r'[^_a-z](assume|admit)[(]', self.text))}",
        ]

    def assumptions(self):
        return self.trusted()[1:]


def start(prop, tier):
    return RelJob(prop, tier) if props()[prop].get("relational") else Job(prop, tier)
