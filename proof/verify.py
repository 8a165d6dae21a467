"""The deductive part: extracts /repo's functions, attaches the contracts, runs Verus, classifies what it says."""
from concurrent.futures import ThreadPoolExecutor
import fnmatch, json, os, re, subprocess, time
import gen, rx

HERE = os.path.dirname(os.path.abspath(__file__))

TREE = ["fc_vec::*", "select::*", "split::*", "laws::*", "util::*", "node::*", "rtree::*"]
GEOM = ["vector::*", "bounds::*", "filter::*", "contains::*", "intersects::*", "geom*"]
ITER = ["iter::*", "iter_stack::*", "rtree_iter::*", "util::*"]
# property -> [(unit, patterns of the functions, contracts and lemmas it rests on, kinds of obligations or None[,
# patterns of what these in turn rely on: another property's, so a failure there leaves this one to the bounded check])]
PROPS = {
    "C01": [("rtree", TREE, {"content", "call", "proof", "limits"})],
    "C02": [("rtree", ["node::*get*", "node::*insert_unique*", "node::*remove*", "node::*entry*", "rtree::*get*", "rtree::*insert_unique*", "rtree::*remove*",
                       "node::*Iter*", "util::*", "node::*children*", "node::Node::*", "node::NodeRef*", "fc_vec::*"], {"content", "call", "proof", "limits"})],
    "C03": [("iter", ITER + ["filters::*"], None, TREE + GEOM)],
    "C04": [("iter", ITER + ["rtree::*::len", "rtree::*::is_empty", "rtree::lemma_filled", "rtree::lemma_good_filled", "rtree::theorem_sound", "node::NodeRef*::len", "node::NodeRef*::is_empty",
                       "node::NodeRef*::children", "node::NodeRef*::shallow_len", "node::NodeContainer::borrow", "node::InnerNodeChildrenRef*", "node::InnerNodeChildrenIter*",
                       "node::lemma_flats*", "fc_vec::FCVec*::len", "fc_vec::*deref*", "fc_vec::*iter*"], None, TREE)],
    "C05": [("sorted", ["sorted::*", "ranked::*", "rtree_sorted::*", "heap::*"], None, TREE + GEOM)],
    "C06": [("join", ["join::*", "rtree_join::*", "iter_stack::*", "node::NodeRef*::children", "node::NodeRef*::level", "node::NodeRef*::node", "node::NodeRef*::is_empty", "node::NodeContainer::borrow", "iter::mapped"], None, TREE + GEOM + ["iter::*", "filters::*"])],
    "C07": [("leftjoin", ["left_join::*", "inner_stack::*", "rtree_left_join::*", "iter_stack::*", "iter::FilterIter::new_from_stack", "iter::Iter::new_from_stack", "iter::mapped", "util::*",
                          "node::NodeRef*::level", "node::NodeRef*::node", "node::NodeRef*::is_empty", "node::NodeContainer::borrow"], None, TREE + GEOM + ["iter::*", "filters::*"])],
    "C08": [("rtree", TREE, {"structure", "call", "proof", "limits"})],
    "C09": [("rtree", ["fc_vec::*", "mem_model::*", "node::*drop*", "node::*leak*", "node::*wrap*", "node::*children", "node::*borrow*", "node::*branch*", "node::InnerNodeChildrenContainer*",
                       "node::InnerNodeChildrenIntoIter*", "node::NodeChildrenContainer*", "node::Alloc::*"], None)],
    "C10": [("rtree", ["node::*clone*", "fc_vec::Alloc::*", "fc_vec::FCVecContainer*", "rtree::theorem_clone", "node::*leak*", "node::*wrap*", "node::Node::new", "node::NodeRef*::children",
                       "node::NodeContainer::borrow", "node::InnerNodeChildrenRef*", "node::InnerNodeChildrenIter*"], None)],
    "C11": [("itermut", ["itermut::*", "rtree_itermut::*"], None, TREE + GEOM), ("sortedmut", ["sortedmut::*", "rtree_sortedmut::*", "ranked::*"], None, TREE + GEOM + ["sorted::*", "rtree_sorted::*", "heap::*"]),
            ("rtree", ["node::*get_mut*", "rtree::*get_mut*", "node::*found*", "node::*like*"], None, TREE)],
    "C12": [("geom", ["vector::*", "bounds::*", "geom_line::*", "geom_sphere::*", "num_traits::*", "crate::*"], None)],
    "C13": [("geom", ["*"], None)],
    "C14": [("float", ["slab*::*", "ieee::*", "vector_index::*", "vector::*sq_mag", "vector::*into_map", "vector::*sub", "vector::map_reduce"], None, GEOM)],
    "C15": [("rcmut", ["rc_mut::*", "stack_box::*", "heap::*"], None),
            ("leftjoin", ["left_join::*", "rtree_left_join::*"], None, TREE + GEOM + ["iter::*", "filters::*", "inner_stack::*", "iter_stack::*", "util::*"])],
    "C16": [("rtree", TREE, {"call", "limits"}),
            ("itermut", ITER + ["filters::*", "itermut::*", "rtree_itermut::*"], {"call", "limits"}, TREE + GEOM),
            ("sortedmut", ["sorted::*", "ranked::*", "rtree_sorted::*", "heap::*", "sortedmut::*", "rtree_sortedmut::*"], {"call", "limits"}, TREE + GEOM),
            ("join", ["join::*", "rtree_join::*"], {"call", "limits"}, TREE + GEOM + ITER + ["filters::*"]),
            ("leftjoin", ["left_join::*", "inner_stack::*", "rtree_left_join::*"], {"call", "limits"}, TREE + GEOM + ITER + ["filters::*"]),
            ("rcmut", ["rc_mut::*", "stack_box::*", "heap::*"], {"call", "limits"})],
    "C17": [("iter+permit", ["iter::*", "rtree_iter::*", "filters::*"], None, TREE + GEOM),
            ("itermut+permit", ["itermut::*", "rtree_itermut::*"], None, TREE + GEOM + ["iter::*", "filters::*"]),
            ("sortedmut+permit", ["sorted::*", "rtree_sorted::*", "sortedmut::*", "rtree_sortedmut::*", "ranked::*", "heap::*"], None, TREE + GEOM),
            ("join+permit", ["join::*", "rtree_join::*"], None, TREE + GEOM + ["iter::*", "filters::*"]),
            ("leftjoin+permit", ["left_join::*", "inner_stack::*", "rtree_left_join::*"], None, TREE + GEOM + ["iter::*", "filters::*"])],
}
CONTENT = re.compile(r"\b(bags?|flats?|entries|\w*_match|taken|overwritten|found\w*|obag|to_multiset|inserted|removed\w*|unique_inserted|clones|cloned\w*|remaining)\b")
STRUCTURE = re.compile(r"\b(c?good|child_ok|sound|up|up_all|clen|level|cap|min_children|bounds|inserted|removed\w*|unique_inserted|fits|kind|orphans_ok)\b")


def kinds(msg, clause):
    """What an obligation is about: content (entries, results), structure (bounds, occupancy, depth), call (a callee's precondition),
    limits (termination, arithmetic) or proof (a step of an argument)."""
    if "postcondition" in msg:
        k = set()
        if CONTENT.search(clause):
            k.add("content")
        if STRUCTURE.search(clause):
            k.add("structure")
        return k or {"content", "structure", "proof"}
    if "termination" in msg or "decreases" in msg or "arithmetic" in msg or "division" in msg:
        return {"limits"}
    if "precondition" in msg:
        return {"proof"} if re.search(r"\blemma_\w+|\btheorem_\w+", clause) else {"call"}
    return {"proof"}


RLIMIT = 25
TIMEOUT = 400

BASE = os.path.join(HERE, "base.json")     # function names and loop counts of the tree the contracts were written for


def base():
    try:
        with open(BASE) as f:
            return json.load(f)
    except OSError:
        return {}


def verus(path, rlimit):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "4", "--triggers-mode", "silent", "--num-threads", "8"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += ["--", "--error-format=json"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(path), timeout=TIMEOUT)
    except subprocess.TimeoutExpired:
        return None, [], cmd
    try:
        out = json.loads(r.stdout)
    except ValueError:
        out = None
    diags = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return out, [d for d in diags if d.get("level") == "error"], cmd


PROOF_MSG = re.compile(r"postcondition not satisfied|precondition not (met|satisfied)|assertion failed|invariant not satisfied|"
                       r"possible arithmetic|decreases not satisfied|possible division|recommendation not met|not satisfied|"
                       r"cannot show|could not prove|unreachable|possible bit|unable to prove|constructed value may fail|failed")
LIMIT_MSG = re.compile(r"[Rr]esource limit|rlimit|timed out")


def locate(d, ranges):
    """The function a diagnostic is about."""
    spans = d.get("spans", [])
    first = [s for s in spans if (s.get("label") or "").startswith(("at the end of", "at this exit", "at this loop exit"))]
    rest = [s for s in spans if s.get("is_primary")] + spans
    for s in first + rest:
        hit = None
        for a, b, k, kind in ranges:
            if a <= s["line_start"] <= b and (hit is None or a >= hit[0]):
                hit = (a, k, kind)
        if hit:
            return hit[1], hit[2], s["line_start"]
    return None, None, None


class Unit:
    def __init__(self, name, repo, work):
        self.unit, _, variant = name.partition("+")
        self.name, self.repo, self.work, self.variant = name, repo, work, variant or None
        self.spec = os.path.join(HERE, "spec", self.unit + ".vs")
        self.broken = None          # reason the whole unit has no answer
        self.unsupported = {}       # function -> reason
        self.failed = []            # (function, message, line text)
        self.limits = set()

    def run(self):
        os.makedirs(self.work, exist_ok=True)
        path = self.path = os.path.join(self.work, self.unit + ".rs")
        t0 = time.time()
        for attempt in range(5):
            g = gen.Gen(self.repo, self.spec, force_trust=self.unsupported, variant=self.variant)
            try:
                text = g.run()
            except (rx.ParseError, IndexError, FileNotFoundError) as e:
                self.broken = "extraction: %s" % e
                return self
            self.gen = g
            with open(path, "w") as f:
                f.write(text)
            out, errs, cmd = verus(path, RLIMIT)
            self.cmd = cmd
            if out is None and not errs:
                self.broken = "no answer from the verifier within %d s" % TIMEOUT
                return self
            hard = [e for e in errs if e.get("spans") and not PROOF_MSG.search(e["message"]) and not LIMIT_MSG.search(e["message"])]
            ok = out is not None and "verification-results" in out and not out["verification-results"].get("encountered-vir-error")
            mods = (out or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) if ok else []
            if ok and not hard and (mods or out["verification-results"]["verified"]):
                break
            new = {}
            for e in hard or errs:
                k, kind, line = locate(e, g.out.ranges)
                if kind != "fn" or k in self.unsupported:
                    if e.get("spans"):
                        self.broken = "%s (%s)" % (e["message"][:200], k)
                        return self
                    continue
                new[k] = e["message"][:200]
            if not new:
                self.broken = (errs[0]["message"] if errs else "no result")[:200]
                return self
            self.unsupported.update(new)
        else:
            self.broken = "too many unsupported functions"
            return self
        self.secs = time.time() - t0
        self.verified = out["verification-results"]["verified"]
        self.errors = out["verification-results"]["errors"]
        self.smt = {}
        for m in mods:
            for f in m["function-breakdown"]:
                n = f["function"].split("::", 1)[1]
                c = self.smt.setdefault((m["module"] or "crate"), [])
                c.append((n, f.get("mode:", ""), f["success"], f["time-micros"], f.get("rlimit", 0)))
        seen = set()
        src = text.split("\n")
        for e in errs:
            if not e.get("spans"):
                continue
            k, kind, line = locate(e, g.out.ranges)
            k = k or "crate::?"
            if LIMIT_MSG.search(e["message"]):
                self.limits.add(k)
                continue
            seen.add(k)
            txt = ""
            for s in e["spans"]:
                if ("failed" in (s.get("label") or "") and "precondition" not in e["message"]) or s.get("is_primary"):
                    txt = " ".join(x["text"][x["highlight_start"] - 1:x["highlight_end"] - 1].strip() for x in s.get("text", [])[:4])
                    break
            self.failed.append((k, e["message"], txt, e.get("rendered", "")))
        for m, fs in self.smt.items():
            for n, mode, success, _, _ in fs:
                if not success and not any(k.startswith(m + "::") and k.split("::")[-1] == n.split("::")[-1] for k in seen | self.limits):
                    self.limits.add(m + "::" + n.split("::")[-1])
        return self

    def lost(self, k):
        """Why a failure of k is not conclusive, or None."""
        i = self.gen.info.get(k)
        if i is None:
            return None
        b = base().get(self.unit, {})
        if i["unlisted"]:
            return "not under contract"
        if i["lost"]:
            return "annotations lost: " + "; ".join(i["lost"])
        names = {x.split("::")[-1] for x in b.get("fns", [])}
        if names and i["body"]:
            words = set(re.findall(r"\b(\w+)(?:::<[^()]*>)?\(", i["body"]))
            news = {j["name"] for kk, j in self.gen.info.items() if kk not in b.get("fns", []) and j["name"] not in names}
            n = words & news
            if n:
                return "calls functions without a contract: " + ", ".join(sorted(n))
        for a in self.gen.lost_items:
            return "contract without a function: " + a
        return None


def notes(path):
    """The assumptions a unit states, with those of the units it includes."""
    s = set()
    for l in open(path):
        m = re.match(r"\s*//!\s*(.*)", l)
        if m:
            s.add(m.group(1).strip())
        m = re.match(r"//@ include (\S+)", l)
        if m:
            s |= notes(os.path.join(os.path.dirname(path), m.group(1)))
    return s


def match(k, pats):
    return any(fnmatch.fnmatchcase(k, p.replace("[", "[[]")) for p in pats)


def lemmas(path):
    """The proof functions of a generated unit."""
    out, mod = [], ""
    with open(path) as f:
        for l in f:
            m = re.match(r"pub mod (\w+) \{", l)
            if m:
                mod = m[1]
            m = re.match(r"\s*(?:pub )?(?:broadcast )?(?:proof fn (?=\w)|fn (?=theorem_))(\w+)", l)
            if m:
                out.append(mod + "::" + m[1])
    return out


def prove(prop, repo, work, tier):
    if prop not in PROPS:
        return {"status": "none", "reason": "", "coverage": {}}
    failed, undecided, output, assumptions = [], [], "", set()
    cov = {"obligations": 0, "discharged": 0, "checker_cmd": "", "trusted_base": [], "functions_under_contract": [], "lemmas_and_theorems": [], "units": {}}
    with ThreadPoolExecutor(3) as ex:
        units = list(ex.map(lambda p: Unit(p[0], repo, os.path.join(work, p[0])).run(), PROPS[prop]))
    for u, (name, pats, want, *more) in zip(units, PROPS[prop]):
        deps = more[0] if more else []
        if u.broken:
            undecided.append("%s: %s" % (name, u.broken))
            continue
        cov["checker_cmd"] += " ".join(u.cmd) + "; "
        plain = None
        if u.variant and any(match(k, pats) for k, *_ in u.failed):
            # what fails without the variant's clauses, too, is no news about them
            plain = Unit(u.unit, repo, os.path.join(work, u.unit)).run()
            if plain.broken or plain.limits or plain.unsupported or any(match(k, pats + deps) for k, *_ in plain.failed):
                undecided.append("%s: fails without the clauses of %s, too" % (name, u.variant))
                u.failed = [f for f in u.failed if not match(f[0], pats)]
        for k, msg, txt, rendered in u.failed:
            if not match(k, pats):
                if match(k, deps):
                    undecided.append("%s: %s (what this rests on)" % (k, msg))
                continue
            why = u.lost(k)
            if not why and want is not None and not (kinds(msg, txt) & want):
                why = "another property's obligation"
            if why:
                undecided.append("%s: %s (%s)" % (k, msg, why))
            else:
                failed.append("%s::%s: %s: %s" % (name, k, msg, txt))
                output += rendered + "\n"
        pats = pats + deps
        for k in u.limits:
            if match(k, pats):
                undecided.append("%s: resource limit" % k)
        for k, why in u.unsupported.items():
            if match(k, pats):
                undecided.append("%s: not accepted by the verifier: %s" % (k, why))
        n = d = us = rl = 0
        for m, fs in u.smt.items():
            for f, mode, success, micros, r in fs:
                if not match(m + "::" + f, pats) and not any(match(k, pats) for k in u.gen.info if k.startswith(m + "::") and k.split("::")[-1] == f.split("::")[-1]):
                    continue
                n += 1
                d += 1 if success else 0
                us += micros
                rl += r
        cov["obligations"] += n
        cov["discharged"] += d
        fns = [k for k, i in u.gen.info.items() if not i["unlisted"] and not i["trust"] and i["body"] is not None and k not in u.unsupported and match(k, pats)]
        cov["functions_under_contract"] += [name + "::" + k for k in fns]
        cov["lemmas_and_theorems"] += [name + "::" + k for k in lemmas(u.path) if match(k, pats)]
        for k, i in u.gen.info.items():
            if i["trust"] and match(k, pats):
                assumptions.add("trusted contract: %s::%s: %s" % (name, k, i["trust"]))
        assumptions |= notes(u.spec)
        cov["units"][name] = {
            "queries": n, "solver_ms": round(us / 1000, 1), "rlimit": rl, "wall_s": round(u.secs, 1), "back_end": "Verus 0.2026.09.13 / Z3",
            "left_out_of_the_extraction": u.gen.dropped,
            "lost_annotations": {k: i["lost"] for k, i in u.gen.info.items() if i["lost"]},
        }
    cov["trusted_base"] = sorted(assumptions) + ["Verus and Z3", "rustc", "vstd's specifications of std", "the extraction (proof/rx.py, proof/gen.py)"]
    if failed:
        st = "failed"
    elif undecided or cov["obligations"] == 0:
        st = "undecided"
    else:
        st = "proved"
    return {"status": st, "reason": "; ".join(undecided)[:1500], "coverage": cov, "failed": failed, "output": output, "assumptions": sorted(assumptions)}


def write_base(repo="/repo"):
    b = {}
    for f in sorted(os.listdir(os.path.join(HERE, "spec"))):
        if f.endswith(".vs") and not f.startswith("_"):
            g = gen.Gen(repo, os.path.join(HERE, "spec", f))
            g.run()
            b[f[:-3]] = {"fns": sorted(g.info)}
    with open(BASE, "w") as f:
        json.dump(b, f, indent=0)


if __name__ == "__main__":
    import sys
    if sys.argv[1:] == ["base"]:
        write_base()
    else:
        r = prove(sys.argv[1], "/repo", "/tmp/v/prove", "quick")
        print(json.dumps({k: v for k, v in r.items() if k != "output"}, indent=1))
        print(r.get("output", ""))
