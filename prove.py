"""The deductive part of the checks: extract the functions of a unit from /repo, hand them with their contracts to
Verus, and map what it says to properties."""
import json, os, re, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
EXTRACT = os.path.join(HERE, "extract/target/debug/extract")

# property -> unit of functions verified together, the functions (regular expression over their names) whose
# obligations decide the property, the lemmas over the contracts that state it, and whether only the safety
# obligations (no panic, no overflow, bounds, termination, callee preconditions) of these functions matter.
ENC = r"(Value::encode|Value::wire_type|PackedArray::encode|MessageValue::encode|UnknownValue::encode|To(Unsigned|Signed)Varint::\w+)"
ENCODE = ENC
DECODE = r"(?!%s(<.*>)?$).*" % ENC
SCALAR = r"(?!(%s|Value::decode_packed)(<.*>)?$).*" % ENC
CTX_MEMBERS = r"(MessageInfo::(new|add_field|add_oneof)|EnumInfo::(new|add_field)|(MessageField|Oneof|EnumField)::new)"
CTX_LOOKUP = r"(Context::(resolve_\w+|get_\w+)|MessageInfo::(iter_fields|get_\w+)|EnumInfo::get_\w+|Service::\w+)"
B_NAMES = r"(BuildCache::\w+|FieldTypeBuilder::build|RpcArgBuilder::build|\w+Ref::from|\w+::populate)"
B_MULT = r"(resolve_multiplicity|ValueType::wire_type|FieldBuilder::build)"
B_ERRORS = r"(?!(resolve_multiplicity|ValueType::wire_type)$).*"
CTX_INSERT = r"(?!(%s|%s)(<.*>)?$).*" % (CTX_MEMBERS, CTX_LOOKUP)
B_MIRROR = r"((Field|Message|Enum|Service|Rpc|RpcArg|ProtobufType)(Type)?Builder::build|\w+::populate|\w+::take_\w+|resolve_multiplicity)"
P_FIELD = r"(FieldBuilder::parse.*|ProtoOption::.*|Constant::parse|parse_ident)"
# A property may need the functions of several units: `also` lists the others, each with its functions.
PROPS = {
    "C01": dict(unit="wire", fns=DECODE, lemmas=[], safety=True),
    "C02": dict(unit="wire", fns=SCALAR, lemmas=["prop_c02_scalar"]),
    "C03": dict(unit="wire", fns=DECODE, lemmas=["prop_c03_packed", "prop_c03_elements"]),
    "C04": dict(unit="wire", fns=".*", lemmas=["prop_c04_reencode"]),
    "C05": dict(unit="wire", fns=SCALAR, lemmas=["prop_c05_unknown", "prop_c05_invalid"]),
    "C06": dict(unit="wire", fns=DECODE, lemmas=["prop_c06_prefix", "prop_c06_incomplete", "prop_c06_partial_element", "prop_c06_garbage"]),
    "C07": dict(unit="wire", fns=DECODE, lemmas=["prop_c07_nested"]),
    "C08": dict(unit="wire", fns=ENCODE, lemmas=["prop_c08_concatenation", "prop_c08_varints"]),
    "C09": dict(unit="wire", fns=".*", lemmas=["prop_c09_roundtrip"]),
    "C10": dict(unit="parse", fns=".*", lemmas=["lemma_float", "lemma_message_scalar", "lemma_items_scalar"], safety=True, also=[dict(unit="build", fns=".*", lemmas=[])]),
    "C11": dict(unit="build", fns=B_NAMES, lemmas=["prop_c11_innermost", "prop_c11_order", "prop_c11_references"]),
    "C12": dict(unit="build", fns=".*", lemmas=["prop_c12_intact", "lemma_built_inv"]),
    "C13": dict(unit="build", fns=B_ERRORS, lemmas=["prop_c13_errors", "prop_c13_accepted"]),
    "C16": dict(unit="build", fns=B_MULT, lemmas=["prop_c16_packing", "prop_c16_fields"], also=[dict(unit="parse", fns=P_FIELD, lemmas=[])]),
    "C17": dict(unit="parse", fns=".*", lemmas=[], also=[dict(unit="build", fns=B_MIRROR, lemmas=[])]),
    "C14": dict(unit="ctx", fns=CTX_INSERT, lemmas=["lemma_insert_keeps", "lemma_insert_types", "lemma_insert_found", "lemma_insert_package_keeps"]),
    "C15": dict(unit="ctx", fns=CTX_MEMBERS, lemmas=["lemma_push_contains", "lemma_take_contains"]),
    "C18": dict(unit="ctx", fns=CTX_LOOKUP, lemmas=["lemma_lookups", "lemma_message_lookups"]),
    "C19": dict(unit="wire", fns=DECODE, lemmas=["prop_c19_concatenation"]),
}
GAVE_UP = re.compile(r"rlimit|Resource limit", re.I)
SAFETY = re.compile(r"precondition|overflow|underflow|bounds|decreases|terminat|division|unreachable|assertion|rlimit|Resource limit|invariant", re.I)


def call(cmd, timeout, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace") + "\n[timed out]"


def build_extract():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    try:
        p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(HERE, "extract"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500)
        return p.returncode == 0, p.stdout.decode("utf8", "replace")[-2000:]
    except subprocess.TimeoutExpired:
        return False, "timed out"


def extract(unit, work, external, extra=()):
    rs, ix = os.path.join(work, unit + ".rs"), os.path.join(work, unit + ".json")
    for p in (rs, ix):
        if os.path.exists(p): os.remove(p)
    rc, out, err = call([EXTRACT, "--repo", REPO, "--contracts", os.path.join(HERE, "contracts"), "--unit", unit, "--out", rs, "--index", ix, "--external", ",".join(sorted(external))] + list(extra), 120)
    if rc != 0 or not os.path.exists(ix): return None, (err or out)[-1500:]
    return json.load(open(ix)), None


def verus_cmd(unit, rlimit, extra=()):
    return ["verus", unit + ".rs", "--triggers-mode", "silent", "--rlimit", str(rlimit), "--num-threads", "8", "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "4"] + list(extra)


def verus(unit, work, rlimit, timeout, extra=()):
    t0 = time.time()
    rc, out, err = call(verus_cmd(unit, rlimit, extra), timeout, cwd=work)
    res = None
    i = out.find("{\n")
    if i >= 0:
        try: res = json.JSONDecoder().raw_decode(out[i:])[0]
        except ValueError: res = None
    diags = []
    for line in err.splitlines():
        if not line.startswith("{"): continue
        try: d = json.loads(line)
        except ValueError: continue
        if d.get("level") == "error" and not d.get("message", "").startswith("aborting due"): diags.append(d)
    return dict(rc=rc, res=res, diags=diags, err=err[-1500:], wall=time.time() - t0)


class Place:
    """Which function or lemma a line of the emitted file belongs to."""
    def __init__(self, rs, index):
        self.fns = index["functions"]
        self.lemma = {}
        cur = None
        for n, l in enumerate(open(rs, encoding="utf8"), 1):
            m = re.match(r"\s*(?:pub )?(?:open |closed |uninterp )?(?:broadcast )?(?:axiom |proof |spec )?fn (\w+)", l)
            if m: cur = m.group(1)
            self.lemma[n] = cur

    def key(self, line):
        for f in self.fns:
            if f["start"] - 1 <= line <= f["end"]: return "fn", f["key"]
        return "lemma", self.lemma.get(line)


def spans_of(d):
    r = list(d.get("spans") or [])
    for c in d.get("children") or []: r += c.get("spans") or []
    return r


def locate(d, pl):
    """The function whose obligation this diagnostic is about."""
    sp = spans_of(d)
    cands = []
    for s in sp:
        cands.append((pl.key(s["line_start"]), s.get("is_primary"), s.get("label") or ""))
    fns = [c for c in cands if c[0][0] == "fn"]
    if "precondition" in d["message"]:
        # primary span: the call site
        p = [c for c in fns if c[1]]
        if p: return p[0][0]
    if "postcondition" in d["message"]:
        # the clause is the primary span and may belong to a trait; the other spans are in the body
        p = [c for c in fns if not c[1]] or fns
        if p: return p[0][0]
    if fns: return fns[0][0]
    if cands: return cands[0][0]
    return ("?", None)


def is_verification(d):
    """A failed obligation, as opposed to a text the verifier does not take."""
    m = d["message"]
    return d.get("code") is None and re.search(
        r"precondition not satisfied|precondition not met|postcondition not satisfied|assertion failed|assert forall|possible arithmetic|possible division|possible bit shift|invariant not satisfied|decreases|rlimit|Resource limit|loop ensures|"
        r"recommendation not met|might not be allowed|unreachable|could not|failed precondition|constructor of datatype|termination|not satisfied", m) is not None \
        and "not supported" not in m and "must have a decreases clause" not in m


def run_unit(unit, work, tier, share=1.0):
    """Extracts and verifies a unit; functions the verifier cannot take are left to the bounded search, one by one."""
    t0 = time.time()
    rlimit = 60 if tier == "quick" else 120
    r = dict(unit=unit, failed=[], bounded={}, functions=[], lemmas=[], smt_ms=0, verified=0, errors=0, ok=False, why=None, cmd="", trusted=[], rounds=0)
    external = {}
    deadline = t0 + share * (330 if tier == "quick" else 500)
    while True:
        r["rounds"] += 1
        index, why = extract(unit, work, external)
        if index is None:
            r["why"] = "the extraction fails: " + why
            return r
        rs = os.path.join(work, unit + ".rs")
        r["cmd"] = "cd %s && %s" % (work, " ".join(verus_cmd(unit, rlimit)))
        v = verus(unit, work, rlimit, max(30, deadline - time.time()))
        pl = Place(rs, index)
        res = (v["res"] or {}).get("verification-results")
        soft = [d for d in v["diags"] if is_verification(d)]
        hard = [d for d in v["diags"] if not is_verification(d)]
        if res is not None and not hard and not res.get("encountered-vir-error"):
            break
        # the text is not accepted: leave out the functions at fault and try again
        new = {}
        for d in hard:
            for s in spans_of(d):
                kind, key = pl.key(s["line_start"])
                if kind == "fn" and key not in external and s.get("is_primary", True):
                    new[key] = "the verifier does not take it: " + d["message"][:200]
        if v["rc"] == 124:
            r["why"] = "the verifier ran out of time"
            return r
        if not new:
            for d in hard:
                for s in spans_of(d):
                    kind, key = pl.key(s["line_start"])
                    if kind == "fn" and key not in external: new[key] = "the verifier does not take it: " + d["message"][:200]
        if not new or r["rounds"] >= 8 or time.time() > deadline - 40:
            r["why"] = "the verifier does not take the text: " + "; ".join(d["message"][:200] for d in hard[:3]) + ("" if hard else v["err"][-300:])
            return r
        external.update(new)
    # ---- obligations
    res = v["res"]["verification-results"]
    r["verified"], r["errors"] = res["verified"], res["errors"]
    for m in v["res"]["times-ms"]["smt"].get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            r["smt_ms"] += f.get("time", 0)
    for f in index["functions"]:
        st = f["status"]
        if st == "assumed": continue
        if st != "ok":
            r["bounded"][f["key"]] = external.get(f["key"]) or st
    for k in index["lost"]:
        r["bounded"][k] = "the function does not exist in this tree"
    missing = {f["key"]: f["missing"] for f in index["functions"]}
    shape = {f["key"]: f["loops"] for f in index["functions"]}
    fp = os.path.join(HERE, "contracts", unit + ".forms.json")
    forms = json.load(open(fp)) if os.path.exists(fp) else {}
    vague = {}
    emitted = open(rs, encoding="utf8").read().splitlines()
    for f in index["functions"]:
        m = re.search(r"\bvx_(trim(?:_start|_end)?|to_(?:ascii_)?(?:lower|upper)case)\(", "\n".join(emitted[f["start"] - 1:f["end"]]))
        if m: vague[f["key"]] = m.group(1)
    failed = {}
    if soft and time.time() < deadline - 60:
        # the solver gives up on some obligations by chance: one more attempt, with another seed and more effort
        v2 = verus(unit, work, rlimit * 2, max(30, deadline - time.time()), ["--smt-option", "smt.random_seed=7"])
        if v2["res"] is not None and v2["rc"] != 124:
            again = {locate(d, pl) for d in v2["diags"]}
            soft = [d for d in soft if locate(d, pl) in again]
            r["attempts"] = 2
    for d in soft:
        kind, key = locate(d, pl)
        if key is None: continue
        if GAVE_UP.search(d["message"]):
            # no answer, which is neither a proof nor a violation
            r["bounded"][key] = "the solver gives up on it: " + d["message"][:200]
            continue
        if kind == "fn" and forms.get(key, shape.get(key)) != shape.get(key):
            # the loop invariants were written for other loops; that they do not fit says nothing about what the code does
            r["bounded"][key] = "its loops have another form than the hints were written for (%s, not %s)" % (", ".join(shape[key]), ", ".join(forms[key]))
            continue
        if kind == "fn" and missing.get(key):
            r["bounded"][key] = "the proof hints do not fit its shape: " + "; ".join(missing[key])
            continue
        if kind == "fn" and key in vague:
            # contracts/shim.rs says nothing of what these do to a text, so the failure may be for want of that
            r["bounded"][key] = "it calls %s, whose result has no specification" % vague[key]
            continue
        sp = [s for s in spans_of(d) if s.get("text")]
        failed.setdefault((kind, key), []).append(dict(kind=kind, function=key, message=d["message"], text=(d.get("rendered") or "")[:1500],
                                                       clause="; ".join(t["text"].strip() for s in sp for t in s["text"][:1])[:300]))
    r["failed"] = [x for l in failed.values() for x in l]
    bad = {k[1] for k in failed if k[0] == "fn"}
    r["functions"] = [f["key"] for f in index["functions"] if f["status"] == "ok" and f["key"] not in r["bounded"]]
    r["proved"] = [f for f in r["functions"] if f not in bad]
    text = open(rs, encoding="utf8").read()
    r["trusted"] = trusted_of(text, index)
    r["index"] = index
    r["lemma_names"] = re.findall(r"^(?:pub )?proof fn (\w+)", text, re.M)
    r["ok"] = True
    r["wall"] = time.time() - t0
    return r


def trusted_of(text, index):
    """Everything in the verified file that is assumed: external_body, axioms, uninterpreted functions, assume."""
    res = []
    lines = text.splitlines()
    own = [(f["start"], f["end"], f["key"], f["status"]) for f in index["functions"]]
    for n, l in enumerate(lines, 1):
        if "external_body" in l or re.match(r"\s*(pub )?axiom fn", l) or "uninterp spec fn" in l or re.search(r"\b(assume|admit)\(", l):
            name = None
            i = l.find("external_body")
            for t in [l[i:] if i >= 0 else l] + lines[n:n + 5]:
                m = re.search(r"\b(?:fn|struct) \w+.*", t)
                if m:
                    name = m.group(0)[:160]
                    break
            for t in reversed(lines[max(0, n - 40):n]):
                m = re.match(r"(?:pub )?(impl.*?|trait \w+) ?[:{]", t)
                if m and name: name = "%s of %s" % (name, m.group(1)[:80])
                if m or t.startswith("}"): break
            kind = "axiom" if "axiom fn" in l else "uninterpreted" if "uninterp" in l else "assumed contract"
            w = [o for o in own if o[0] - 2 <= n <= o[1]]
            if w: name = w[0][2] + (" (not verified: %s)" % w[0][3] if w[0][3] != "assumed" else " (function of the crate)")
            s = "%s: %s" % (kind, name)
            if s not in res: res.append(s)
    return res


def vacuity(unit, work, known_external):
    """Every function must fail when `assert(false)` is put at its start: its preconditions can be met."""
    w = os.path.join(work, "vacuity")
    os.makedirs(w, exist_ok=True)
    index, why = extract(unit, w, known_external, ["--vacuity"])
    if index is None: return None, "extraction: " + why
    v = verus(unit, w, 60, 300)
    pl = Place(os.path.join(w, unit + ".rs"), index)
    hit = {locate(d, pl)[1] for d in v["diags"] if "assertion" in d["message"]}
    want = [f["key"] for f in index["functions"] if f["status"] == "ok"]
    return [k for k in want if k not in hit], None


def conform(work):
    """Tests the contracts assumed about std, bytes and pest on the real things. Gives what it says and whether all hold."""
    d = os.path.join(HERE, "conform")
    facts = os.path.join(work, "facts.txt")
    if os.path.exists(facts): os.remove(facts)
    index, why = extract("parse", work, {}, ["--facts", facts])
    if index is None or not os.path.exists(facts): return None, "not tested: %s" % why
    rc, out, err = call(["cargo", "build", "--offline", "-q"], 200, cwd=d)
    if rc != 0: return None, "not tested: the test program does not build: " + err[-300:]
    rc, out, err = call([os.path.join(d, "target/debug/conform"), "--facts", facts, "--seed", os.environ.get("VERIF_SEED", "1") or "1"], 120)
    lines = [l[9:] for l in out.splitlines() if l.startswith("conform: ")]
    if rc not in (0, 1) or not lines: return None, "not tested: " + (err or out)[-300:]
    return rc == 0, "; ".join(lines)


def run(prop, tier, work):
    p = PROPS.get(prop)
    base = dict(failed=[], alarm=False, related=[], unit=None, why="no contract decides this property yet; the bounded search stands in for it")
    if p is None: return base
    ok, log = build_extract()
    if not ok:
        base["why"] = "the extractor does not build: " + log
        return base
    w = os.path.join(work, "prove-" + prop)
    os.makedirs(w, exist_ok=True)
    parts = [p] + p.get("also", [])
    base.update(work=w, units=[], deps=[], bounded={}, lemmas=[], why=None)
    for q in parts:
        r = run_unit(q["unit"], w, tier, 1.0 if len(parts) == 1 else 0.6)
        if not r["ok"]:
            base["why"] = "unit %s: %s" % (q["unit"], r["why"])
            continue
        base["units"].append(r)
        pat = re.compile(q["fns"] + r"(<.*>)?$")
        base["deps"] += [f["key"] for f in r["index"]["functions"] if pat.match(f["key"]) and f["status"] != "assumed"]
        base["bounded"].update({k: x for k, x in r["bounded"].items() if k is not None and (k in r["lemma_names"] or pat.match(k))})
        base["lemmas"] += [l for l in q["lemmas"] if l in r["lemma_names"]]
        for f in r["failed"]:
            if f["kind"] == "fn":
                if not pat.match(f["function"]): continue
                if p.get("safety") and not SAFETY.search(f["message"]): continue
            elif p.get("safety") and f["function"] not in q["lemmas"]: continue
            base["failed"].append(f)
    if base["units"]: base["unit"] = base["units"][0]
    if not base["units"]: return base
    if base["why"]: base["bounded"]["(the whole of it)"] = base["why"]
    base["alarm"] = bool(base["failed"])
    mine = {u["unit"] for u in base["units"] if u["failed"]}
    base["related"] = [q for q in PROPS if q != prop and mine & {x["unit"] for x in [PROPS[q]] + PROPS[q].get("also", [])}]
    if tier == "thorough":
        good, base["conform"] = conform(w)
        if good is False: base["bounded"]["(an assumed contract is wrong)"] = base["conform"]
    if tier == "thorough" and not base["alarm"]:
        base["vacuous"] = []
        for u in base["units"]:
            v, why = vacuity(u["unit"], w, list(u["bounded"]))
            base["vacuous"] += v if v is not None else [why]
    return base


def describe(r):
    out = []
    for f in r["failed"]:
        out.append("obligation of %s %s: %s\n%s\n" % ("function" if f["kind"] == "fn" else "lemma", f["function"], f["message"], f["text"]))
    for u in r.get("units", []): out.append("checker: %s\n" % u["cmd"])
    return "\n".join(out)


def summary(r):
    if not r.get("units"): return "nothing proved: %s" % r["why"]
    s = "; ".join("unit %s: %d obligations discharged, %d failed, %d functions under contract, solver %.1f s" % (u["unit"], u["verified"], u["errors"], len(u["functions"]), u["smt_ms"] / 1000.0) for u in r["units"])
    for f in r["failed"]: s += "\n  failed obligation: %s %s: %s" % (f["kind"], f["function"], f["message"])
    for k, x in r.get("bounded", {}).items(): s += "\n  bounded only: %s (%s)" % (k, x[:200])
    if "conform" in r: s += "\n  assumed contracts tested: %s" % r["conform"]
    if "vacuous" in r: s += "\n  vacuity: %s" % (r["vacuous"] or "every function has reachable obligations")
    return s


STATIC_ASSUMPTIONS = {
    "parse": [
        "usize is 64 bits",
        "pest: parsing a text does not panic, and gives an error or a tree that proto.pest allows (what it allows is read from the file on every run)",
        "the contracts of std functions listed as trusted (shim.rs, parse.rs: str::parse, from_str_radix, str slices, join, format!) describe them; f64::from_str accepts what its documentation says",
        "collections hold fewer than 2^64 elements; memory allocation does not fail",
        "ContextBuilder::build meets its contract (verified in unit build; that its precondition holds is proved here)",
        "recursion depth (stack space) is not modelled",
    ],
    "build": [
        "usize is 64 bits",
        "the contracts of std functions listed as trusted (shim.rs) describe them",
        "collections hold fewer than 2^64 elements; memory allocation does not fail",
        "the parser gives fields of scalar types or of named types only: the precondition all_deep of ContextBuilder::build, which unit parse proves of its result",
        "the text is turned into the builder structures as C17 says",
        "recursion depth (stack space) is not modelled",
    ],
    "wire": [
        "usize is 64 bits",
        "the contracts of std and bytes functions listed as trusted (shim.rs) describe them",
        "collections hold fewer than 2^64 elements; memory allocation does not fail",
        "each field of a message type refers to a message of the context it is decoded with (C12 for parsed contexts)",
        "recursion depth (stack space) is not modelled",
    ],
    "ctx": [
        "usize is 64 bits",
        "the contracts of std functions listed as trusted (shim.rs: Vec, HashMap, BTreeMap, Option, String, format!) describe them",
        "collections hold fewer than 2^64 elements; memory allocation does not fail",
        "C14: the references inside an inserted item (parent, field types) come from the same context, and a type is given to insert with no inner types of its own",
        "C18: the context satisfies ctx_inv, which inserting preserves (C14, here) and parsing establishes (C12)",
    ],
}


def evidence(prop, p, r):
    search = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": RULE, "samples": r["samples"][:3] or ["(none)"]}
    us = p.get("units")
    if not us:
        search["note"] = "bounded: " + str(p["why"])
        return "exploration", search, ["bounded search only: " + str(p["why"])]
    cov = {
        "obligations": sum(u["verified"] + u["errors"] for u in us), "discharged": sum(u["verified"] for u in us), "checker_cmd": "; ".join(u["cmd"] for u in us),
        "trusted_base": sorted({t for u in us for t in u["trusted"]}) + ["the extraction of /verif/extract (see DESIGN.md)", "Verus 0.2026.09.13 and Z3"],
        "backend": "Verus (Z3)", "solver_ms": sum(u["smt_ms"] for u in us), "functions_under_contract": p["deps"],
        "property_lemmas": p["lemmas"],
        "bounded_functions": p["bounded"], "failed": [{"function": f["function"], "message": f["message"]} for f in p["failed"]],
        "inlined_helpers": sorted({h for u in us for f in u["index"]["functions"] for h in f["inlined"]}),
        "bounded_search": search,
    }
    if "conform" in p: cov["assumed_contracts_tested"] = p["conform"]
    if "vacuous" in p: cov["vacuity_check"] = p["vacuous"] or "each function's start is reachable under its contract"
    if "explained_by" in p: cov["explained_by"] = p["explained_by"]
    level = "proof"
    if prop in PARTLY:
        level = "other"
        cov["explanation"] = PARTLY[prop]
    if p["bounded"]:
        # not a proof of the property on this tree
        level = "exploration"
        cov.update(search)
    return level, cov, sorted({a for u in us for a in STATIC_ASSUMPTIONS.get(u["unit"], [])})


PARTLY = {
    "C17": "Proved: whatever tree the parser makes of a text, the context holds exactly the definitions that tree stands for. Not proved, only searched (bounded_search): that the tree proto.pest "
           "describes for a text is the one the text stands for in proto3.",
}
RULE = "cases generated by the refuter for this property (boundary enumeration, then random structured cases); non-trivial: accepted by the property's premises and not seen before"
