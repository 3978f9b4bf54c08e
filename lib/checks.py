"""The checks: for each property the stages that decide it."""
import itertools, json, os, re
from run import Broken, Violation, VERIF

SETS = {"lost", "left", "custom lost", "custom left", "mixed left", "unknown lost"}
ENDS = {"crash", "refused"}          # a call that did not return; a good stylesheet refused
RULES = {"rule missing", "rule invented", "declarations"}


def tla_set(xs):
    return "{" + ", ".join('"%s"' % x for x in sorted(xs)) + "}"


def lines(path):
    with open(path, encoding="utf-8") as f:
        for l in f:
            yield l


def find(path, i):
    """line i (from 1) of an ndjson file"""
    for k, l in enumerate(lines(path), 1):
        if k == i:
            return json.loads(l)
    return None


def slim(ev):
    e = dict(ev)
    e.pop("sheet", None)
    if len(str(e.get("rules", ""))) > 20000:
        e["rules"] = str(e["rules"])[:20000]
    return e


def validate(ctx, trace, relevant, what):
    """Validates recorded sessions against the specification Session."""
    n = sum(1 for _ in lines(trace))
    cfg = "SPECIFICATION Spec\nCONSTANT Relevant = %s\nINVARIANT Conforms\nCHECK_DEADLOCK FALSE\n" % tla_set(relevant)
    r = ctx.tlc("Session", cfg, {"TRACE": trace})
    if not r["ok"]:
        st = ctx.last_state(r["out"])
        sid, step = int(st["sid"]), int(st["step"])
        s = find(trace, sid)
        dev = st["dev"]
        if '"harness"' in dev:
            raise Broken("the harness recorded a session that makes no sense: %s %d %d" % (what, sid, step))
        ev = slim(s["ev"][step - 1])
        head = "%s: session %d, call %d: deviation %s" % (what, sid, step, dev)
        if ev.get("crash"):
            head += "; " + ev["crash"]
        elif ev["op"] in ("merge", "stage", "again"):
            head += "; Merge(%r) = %r" % (ev.get("text"), " ".join(ev["out"]))
        raise Violation(head, {"deviation": dev, "failing_call": ev, "calls": [slim(e) for e in s["ev"][:step]]})
    ctx.traces += n
    calls = 0
    for k, l in enumerate(lines(trace)):
        s = json.loads(l)
        calls += len(s["ev"])
        if k < 2:
            css = [e["css"] for e in s["ev"] if e["op"] == "add"][:2]
            ms = [[e["text"], " ".join(e["out"])] for e in s["ev"] if e["op"] == "merge"][:3]
            ctx.sample({"css": css, "merge": ms})
    ctx.count("calls_validated", calls)


def sessions(profile, relevant, quick, thorough):
    """Random sessions of the real library, validated."""
    def stage(ctx):
        n = ctx.size(quick, thorough)
        done = 0
        k = 0
        while done < n:
            part = min(n - done, 4000)
            trace = ctx.path("sessions-%d.ndjson" % k)
            ctx.drive(["sessions", "-profile", profile, "-n", str(part), "-seed", str(ctx.seed * 1000 + k)], trace)
            validate(ctx, trace, relevant | ENDS, "sessions " + profile)
            os.remove(trace)
            done += part
            k += 1
    return ("sessions " + profile, stage)


def records(ctx, module, trace, invariants, env=None, alias=None, describe=None):
    """Validates records that are independent of each other (variable i) against a specification."""
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in invariants)
    if alias:
        cfg += "ALIAS %s\n" % alias
    e = {"TRACE": trace}
    e.update(env or {})
    r = ctx.tlc(module, cfg, e)
    if not r["ok"]:
        st = ctx.last_state(r["out"])
        rec = find(trace, int(st["i"]))
        m = re.search(r"Invariant (\w+) is violated", r["out"])
        inv = m.group(1) if m else "?"
        what = describe(st, rec) if describe else rec
        raise Violation("%s: %s violated: %s" % (module, inv, json.dumps(what, ensure_ascii=False)[:1500]), {"invariant": inv, "what": what, "record": rec})
    n = 0
    for k, l in enumerate(lines(trace)):
        n += 1
        if k in (0, 7):
            ctx.sample(json.loads(l) if len(l) < 3000 else l[:3000])
    ctx.traces += n
    ctx.count("records_validated", n)


def covers(quick, thorough):
    def stage(ctx):
        trace, names = ctx.path("covers.ndjson"), ctx.path("names.json")
        ctx.drive(["covers", "-n", str(ctx.size(quick, thorough)), "-seed", str(ctx.seed), "-names", names], trace)
        records(ctx, "Covers", trace, ["Returned", "PairsOK", "SetOK", "Agrees"], {"NAMES": names})
    return ("covers", stage)


def worlds(relevant, *names, mode=""):
    """Small worlds of the specification, tried exhaustively: names of worlds with the length of the
    lists tried in the quick and in the thorough tier."""
    def stage(ctx):
        for name, quick, thorough in names:
            w = ctx.path("world.json")
            ctx.tlc("Worlds", "SPECIFICATION Spec\n", {"WORLD": name, "OUT": w}, workers=1)
            trace = ctx.path("world.ndjson")
            args = ["worlds", "-world", w, "-mode", mode, "-seed", str(ctx.seed)]
            ctx.drive(args + ["-len", str(ctx.size(quick, thorough)), "-n", str(ctx.size(24, 400) if mode == "whole" else ctx.size(30000, 1500000))], trace)
            validate(ctx, trace, relevant | ENDS, "world " + name)
            os.remove(trace)
    return ("worlds " + " ".join(n for n, _, _ in names), stage)


def redefinitions(relevant, limit):
    """A class that is defined twice: all pairs of definitions of the specification (how many in the quick tier)."""
    def stage(ctx):
        w, trace = ctx.path("pairs.json"), ctx.path("pairs.ndjson")
        ctx.tlc("Redefinitions", "SPECIFICATION Spec\n", {"OUT": w}, workers=1)
        ctx.drive(["redefinitions", "-world", w, "-seed", str(ctx.seed), "-limit", str(ctx.size(limit, 0))], trace)
        validate(ctx, trace, relevant | ENDS, "redefinitions")
        os.remove(trace)
    return ("redefinitions", stage)


def structures(relevant, *names, mode=""):
    """Selectors by structure: all of the specification (names of sets, how many in the quick tier; 0: all)."""
    def stage(ctx):
        for name, limit in names:
            w = ctx.path("structures.json")
            ctx.tlc("Structures", "SPECIFICATION Spec\n", {"WORLD": name, "OUT": w}, workers=1)
            trace = ctx.path("structures.ndjson")
            ctx.drive(["structures", "-world", w, "-mode", mode, "-seed", str(ctx.seed), "-limit", str(ctx.size(limit, 0))], trace)
            validate(ctx, trace, relevant | ENDS, "structures " + name)
            os.remove(trace)
    return ("structures " + " ".join(n for n, _ in names), stage)


def utilities(relevant, choices, n):
    """The classes of Tailwind: the utilities and variants of the specification (how many choices of variants, and sessions with each)."""
    def stage(ctx):
        for k in range(ctx.size(*choices)):
            w, trace = ctx.path("utilities.json"), ctx.path("utilities.ndjson")
            ctx.tlc("Tailwind", "SPECIFICATION Spec\n", {"NUMBER": str(ctx.seed * 31 + k), "OUT": w}, workers=1)
            ctx.drive(["utilities", "-world", w, "-n", str(ctx.size(*n)), "-seed", str(ctx.seed * 100 + k)], trace)
            validate(ctx, trace, relevant | ENDS, "utilities")
            os.remove(trace)
    return ("utilities", stage)


def tailwind(relevant, quick, thorough, mode=""):
    """Parts of real output of Tailwind, as it is, and what a parser of our own says that it means."""
    def stage(ctx):
        trace = ctx.path("tailwind.ndjson")
        corpus = os.path.join(VERIF, "corpus")
        n = ctx.size(quick, thorough)
        for k in range(0, n, 2000):
            ctx.drive(["tailwind", "-in", os.path.join(corpus, "tailwind.json"), "-world", os.path.join(corpus, "tailwind.css"), "-mode", mode, "-n", str(min(2000, n - k)), "-seed", str(ctx.seed * 100 + k)], trace)
            validate(ctx, trace, relevant | ENDS, "output of Tailwind")
            os.remove(trace)
    return ("output of Tailwind", stage)


def atrules(relevant, limit):
    """At-rules without effect, in all combinations of the specification."""
    def stage(ctx):
        w = ctx.path("atrules.json")
        ctx.tlc("AtRules", "SPECIFICATION Spec\n", {"OUT": w}, workers=1)
        trace = ctx.path("atrules.ndjson")
        ctx.drive(["atrules", "-world", w, "-seed", str(ctx.seed), "-limit", str(ctx.size(limit, 0))], trace)
        validate(ctx, trace, relevant | ENDS, "at-rules")
        os.remove(trace)
    return ("at-rules", stage)


def readers(rules, length, limit):
    """Readers that behave in all the ways of the specification."""
    def stage(ctx):
        cfg = ("SPECIFICATION Spec\nCONSTANTS Rules = %d\nCalls = %d\nINVARIANT AllOrNothing Sum Emit\nCHECK_DEADLOCK FALSE\n" % (rules, ctx.size(*length)))
        r = ctx.tlc("Readers", cfg, workers=1)
        if not r["ok"]:
            raise Broken("the model Readers violates its properties: " + r["out"][-3000:])
        scripts = [x.replace('\\"', '"') for x in re.findall(r'<<"READER", "(.*)">>', r["out"])]
        f, trace = ctx.path("readers.json"), ctx.path("readers.ndjson")
        open(f, "w").write("".join(x + "\n" for x in scripts))
        ctx.drive(["readers", "-in", f, "-limit", str(ctx.size(limit, 40000)), "-seed", str(ctx.seed)], trace)
        validate(ctx, trace, SETS | RULES | ENDS | {"accepted", "changed"}, "readers")
        ctx.count("readers_of_the_specification", len(scripts))
        os.remove(trace)
    return ("readers", stage)


def faults(quick, thorough):
    """Stylesheets with one fault, wherever the specification puts it."""
    def stage(ctx):
        f, trace = ctx.path("faults.json"), ctx.path("faults.ndjson")
        ctx.tlc("Faults", "SPECIFICATION Spec\n", {"OUT": f}, workers=1)
        ctx.drive(["faults", "-in", f, "-limit", str(ctx.size(quick, thorough)), "-seed", str(ctx.seed)], trace)
        validate(ctx, trace, SETS | RULES | ENDS | {"accepted", "changed"}, "faults")
        os.remove(trace)
    return ("faults", stage)


def spellings(quick, thorough):
    """Stylesheets of the specification, their slots filled in all ways: each alone, and pairs (how many)."""
    def stage(ctx):
        f, trace = ctx.path("spellings.json"), ctx.path("spellings.ndjson")
        ctx.tlc("Spellings", "SPECIFICATION Spec\n", {"OUT": f}, workers=1)
        ctx.drive(["spellings", "-in", f, "-limit", str(ctx.size(quick, thorough)), "-seed", str(ctx.seed)], trace)
        validate(ctx, trace, {"unsteady"} | ENDS, "spellings")
        os.remove(trace)
    return ("spellings", stage)


def idents(*alphabets):
    """Names in every spelling: (alphabet, length in the model, length on the library: quick, thorough)."""
    def stage(ctx):
        w, trace = ctx.path("alphabets.json"), ctx.path("idents.ndjson")
        for name, model, quick, thorough in alphabets:
            cfg = ("SPECIFICATION Spec\nCONSTANTS Alphabet <- %s\nLength = %d\nINVARIANT Stable Literal Shorter Scalars\nCHECK_DEADLOCK FALSE\n" % (name.capitalize(), model))
            r = ctx.tlc("IdentMC", cfg, {"OUT": w})
            if not r["ok"]:
                raise Broken("the model IdentMC violates its properties: " + r["out"][-3000:])
            ctx.drive(["idents", "-in", w, "-world", name, "-len", str(ctx.size(quick, thorough)), "-limit", str(ctx.size(40000, 250000)), "-seed", str(ctx.seed)], trace)
            records(ctx, "IdentTrace", trace, ["Returned", "Defined"])
        ctx.drive(["idents", "-world", "hex", "-limit", str(ctx.size(12000, 0)), "-seed", str(ctx.seed)], trace)
        records(ctx, "IdentTrace", trace, ["Returned", "Defined"])
        os.remove(trace)
    return ("identifiers", stage)


def varnames(quick, thorough):
    """Custom properties under all names of the specification, used in all its forms."""
    def stage(ctx):
        w, trace = ctx.path("names.json"), ctx.path("varnames.ndjson")
        ctx.tlc("VarNames", "SPECIFICATION Spec\n", {"OUT": w}, workers=1)
        ctx.drive(["varnames", "-world", w, "-n", str(ctx.size(quick, thorough)), "-seed", str(ctx.seed)], trace)
        validate(ctx, trace, SETS | ENDS, "names of custom properties")
        os.remove(trace)
    return ("names of custom properties", stage)


def plain_rule(c, p):
    return {"t": "rule", "sels": [{"k": "class", "v": c}], "decls": [{"p": p, "i": False, "vars": [], "val": "1px"}]}


def within(kind, cond, item):
    return {"t": "at", "kind": kind, "cond": cond, "body": [item]}


def findings(**texts):
    """Known findings: texts that should define no class, between rules that should, or worlds.  Each still fails, or not any more."""
    def stage(ctx):
        for key, text in texts.items():
            key = key.replace("_", "-")
            line = next((l for l in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8") if l.startswith("known: property=%s key=%s " % (ctx.prop, key))), None)
            if line is None:
                raise Broken("no known finding " + key)
            w, trace = ctx.path("finding.json"), ctx.path("finding.ndjson")
            if isinstance(text, str):
                json.dump({"texts": [text], "nested": [], "sheets": [[plain_rule("b", "width"), {"t": "junk", "text": "?"}, plain_rule("c", "height")]]}, open(w, "w"))
                ctx.drive(["atrules", "-world", w, "-seed", "1"], trace)
            else:
                json.dump({"sheet": text, "classes": list("abcdefgh"[:len(text)])}, open(w, "w"))
                ctx.drive(["worlds", "-world", w, "-mode", "", "-seed", "1", "-len", "2", "-n", "100"], trace)
            try:
                validate(ctx, trace, SETS | RULES | ENDS, "finding " + key)
            except Violation:
                ctx.known.append(line.split(" ", 3)[3].strip())
    return ("known findings", stage)


def mergemc(*runs):
    """The specification itself: the algorithm against the definition, and what the definition guarantees."""
    def stage(ctx):
        for world, classes, quick, thorough in runs:
            size = ctx.size(quick, thorough)
            if not size:
                continue
            cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Classes = %s\nWorld = \"%s\"\nMaxLen = %d\n"
                   "INVARIANT Refines ScanOK StyleKept VarsKept Idempotent Staged Minimal Unknowns Repeats\nPROPERTY Ends\n"
                   % (tla_set("abc"[:classes]), world, size))
            r = ctx.tlc("MergeMC", cfg)
            if not r["ok"]:
                raise Broken("the specification contradicts itself: " + r["out"][-3000:])
    return ("model MergeMC: " + ", ".join(r[0] for r in runs), stage)


def laws(invariants, quick, thorough):
    """The specification of selectors itself."""
    def stage(ctx):
        cfg = "SPECIFICATION Laws\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in invariants)
        r = ctx.tlc("SelectorLaws", cfg, {"WORLD": "boxes", "OUT": ctx.path("unused.json"), "SIZE": str(ctx.size(quick, thorough))})
        if not r["ok"]:
            raise Broken("the specification contradicts itself: " + r["out"][-3000:])
    return ("model SelectorLaws", stage)


def wrong_uses(world):
    def describe(st, rec):
        if rec["crash"]:
            return rec["crash"]
        def numbers(x):
            return [int(k) for k in re.findall(r"\d+", x)]
        out = [rec["uses"][k - 1] for k in numbers(st.get("uses", ""))]
        if world and "found" in rec:
            w = json.load(open(world, encoding="utf-8"))
            out = [{"sel": w["sels"][k - 1], "found": rec["found"][k - 1], "doc": w["docs"][rec["d"] - 1]} for k in numbers(st.get("sels", ""))]
        return out[:3]
    return describe


def selectors(invariants, quick, thorough, *names):
    """Selectors on documents: small worlds exhaustively (name, size in the quick and in the thorough tier), and random ones."""
    def stage(ctx):
        for name, q, t in names:
            size = ctx.size(q, t)
            if not size:
                continue
            w = ctx.path("world.json")
            ctx.tlc("SelectorWorlds", "SPECIFICATION Spec\n", {"WORLD": name, "OUT": w, "SIZE": str(size)}, workers=1)
            trace = ctx.path("selectors.ndjson")
            ctx.drive(["selectors", "-world", w, "-seed", str(ctx.seed)], trace)
            records(ctx, "SelectorTrace", trace, invariants, {"WORLD": w}, "Report", wrong_uses(w))
            os.remove(trace)
        n = ctx.size(quick, thorough)
        for k in range(0, n, 20000):
            trace = ctx.path("selectors.ndjson")
            ctx.drive(["selectors", "-n", str(min(20000, n - k)), "-seed", str(ctx.seed * 1000 + k // 20000)], trace)
            records(ctx, "SelectorTrace", trace, invariants, {"WORLD": ""}, "Report", wrong_uses(None))
            os.remove(trace)
    return ("selectors " + " ".join(n for n, _, _ in names), stage)


def validate_texts(ctx, trace, relevant):
    r = ctx.tlc("ClassList", "SPECIFICATION Spec\nCONSTANT Relevant = %s\nINVARIANT Conforms\nINVARIANT SplitOK\nCHECK_DEADLOCK FALSE\n" % tla_set(relevant | ENDS), {"TRACE": trace})
    if not r["ok"]:
        st = ctx.last_state(r["out"])
        s = find(trace, int(st["sid"]))
        ev = slim(s["ev"][int(st["step"]) - 1])
        raise Violation("texts: session %s, call %s: deviation %s; Merge(%r) = %r %s" % (st["sid"], st["step"], st["dev"], ev.get("text"), ev.get("result"), ev["crash"]),
                        {"deviation": st["dev"], "failing_call": ev, "calls": [slim(e) for e in s["ev"][:int(st["step"])]]})
    for l in itertools.islice(lines(trace), 2):
        ctx.sample({"merge": [[e["text"], e["result"]] for e in json.loads(l)["ev"] if e["op"] == "text"][:3]})
    ctx.traces += sum(1 for _ in lines(trace))


TEXTS = {"short", "foreign", "twice", "unknown lost", "order"}


def texts(quick, thorough):
    """Class lists as raw texts, validated against ClassList."""
    def stage(ctx):
        n = ctx.size(quick, thorough)
        for k in range(0, n, 4000):
            trace = ctx.path("texts.ndjson")
            ctx.drive(["sessions", "-profile", "C07", "-n", str(min(4000, n - k)), "-seed", str(ctx.seed * 1000 + k)], trace)
            validate_texts(ctx, trace, TEXTS)
            os.remove(trace)
    return ("texts", stage)


def alltexts(relevant, *names):
    """All texts over small alphabets, merged by one Merger with a cache."""
    def stage(ctx):
        for name in names:
            w, trace = ctx.path("alphabet.json"), ctx.path("texts.ndjson")
            ctx.tlc("Texts", "SPECIFICATION Spec\n", {"WORLD": name, "OUT": w}, workers=1)
            ctx.drive(["alltexts", "-world", w, "-limit", str(ctx.size(0, 1)), "-seed", str(ctx.seed)], trace)
            validate_texts(ctx, trace, relevant)
            os.remove(trace)
    return ("all texts " + " ".join(names), stage)


def calls(alphabet, length, limit, relevant, cached=False):
    """All short sequential histories of the specification, on the real library."""
    def stage(ctx):
        q, t = length
        cfg = ("SPECIFICATION Spec\nCONSTANTS Alphabet <- %s\nLength = %d\nINVARIANT UpToDate Fresh Emit\nCHECK_DEADLOCK FALSE\n"
               % (alphabet, ctx.size(q, t)))
        r = ctx.tlc("Calls", cfg, workers=1)
        if not r["ok"]:
            raise Broken("the model Calls violates its properties: " + r["out"][-3000:])
        hist = [x.replace('\\"', '"') for x in re.findall(r'<<"CALLS", "(.*)">>', r["out"])]
        f = ctx.path("calls.json")
        open(f, "w").write("".join(x + "\n" for x in hist))
        trace = ctx.path("calls.ndjson")
        ctx.drive(["calls", "-in", f, "-n", str(ctx.size(limit, 40000)), "-seed", str(ctx.seed)] + (["-cached"] if cached else []), trace)
        validate(ctx, trace, relevant | ENDS, "histories " + alphabet)
        ctx.count("histories_of_the_specification", len(hist))
        os.remove(trace)
    return ("all short histories", stage)


def tokens(alphabets, wild, invariants):
    """Stylesheets as sequences of pieces: the regular ones of the specification, and wild ones."""
    def stage(ctx):
        w = ctx.path("tokens.json")
        for alphabet, quick, thorough, limit in alphabets:
            cfg = ("SPECIFICATION Spec\nCONSTANTS Alphabet <- %s\nLength = %d\nINVARIANT Stays Agree Where Emit\nCHECK_DEADLOCK FALSE\n"
                   % (alphabet, ctx.size(quick, thorough)))
            r = ctx.tlc("TokensMC", cfg, {"OUT": w}, workers=1)
            if not r["ok"]:
                raise Broken("the model TokensMC violates its properties: " + r["out"][-3000:])
            seqs = [x.replace('\\"', '"') for x in re.findall(r'<<"TOKENS", "(.*)">>', r["out"])]
            f = ctx.path("seqs.json")
            open(f, "w").write("".join(x + "\n" for x in seqs))
            ctx.count("sequences_of_the_specification", len(seqs))
            trace = ctx.path("tokens.ndjson")
            ctx.drive(["tokens", "-world", w, "-in", f, "-n", "0", "-limit", str(ctx.size(limit, 0)), "-seed", str(ctx.seed)], trace)
            records(ctx, "Stylesheet", trace, invariants)
            os.remove(trace)
        if wild:
            n = ctx.size(*wild)
            for k in range(0, n, 50000):
                trace = ctx.path("tokens.ndjson")
                ctx.drive(["tokens", "-world", w, "-n", str(min(n - k, 50000)), "-seed", str(ctx.seed * 100 + k // 50000)], trace)
                records(ctx, "Stylesheet", trace, invariants)
                os.remove(trace)
    return ("token sequences", stage)


def judge(ctx, module, trace, what, env=None):
    """Validates concurrent histories."""
    cfg = "SPECIFICATION Spec\nINVARIANT Linearizable Returned\nCHECK_DEADLOCK FALSE\n"
    e = {"TRACE": trace}
    e.update(env or {})
    r = ctx.tlc(module, cfg, e)
    if not r["ok"]:
        st = ctx.last_state(r["out"])
        h = find(trace, int(st["h"]))
        step = int(st["step"])
        if h["crash"]:
            head = "%s: history %d: %s" % (what, h["id"], h["crash"][:500])
        else:
            head = "%s: history %d cannot be explained by calls that take effect one after another (after %d events)" % (what, h["id"], step)
        raise Violation(head, {"module": module, "history": h, "events_until": step})
    n = 0
    for k, l in enumerate(lines(trace)):
        n += 1
        if k == 3:
            ctx.sample(json.loads(l))
    ctx.traces += n
    ctx.count("histories_judged", n)


def race_report(err):
    m = re.search(r"WARNING: DATA RACE.*?(?=\n==================|\Z)", err, re.S)
    return m.group(0) if m else None


def system(programs, variants):
    """The model of concurrent use: the code's way holds the properties, broken ways do not."""
    def stage(ctx):
        for prog, tier in programs:
            if tier == "thorough" and ctx.tier != "thorough":
                continue
            for variant, bad in variants:
                if bad and prog not in bad:
                    continue
                if not bad and variant != "code" and prog != "Small" and ctx.tier != "thorough":
                    continue
                cfg = ("SPECIFICATION Spec\nCONSTANTS Programs <- %s\nVariant = \"%s\"\nRecord = FALSE\n"
                       "INVARIANT Linearizable Coherent Exclusive LockOK\n%sCHECK_DEADLOCK TRUE\n"
                       % (prog, variant, "" if bad else "PROPERTY Ends\n"))
                r = ctx.tlc("MergerSysMC", cfg)
                if not bad and not r["ok"]:
                    raise Broken("the model MergerSys violates its properties: " + r["out"][-3000:])
                if bad and r["ok"]:
                    raise Broken("the properties of MergerSys do not tell variant %s with %s" % (variant, prog))
    return ("model MergerSys", stage)


def forced(names, limit):
    """Schedules of the specification, forced on the real code."""
    def stage(ctx):
        sheets = ctx.path("sheets.json")
        for name in names:
            cfg = "SPECIFICATION Spec\nCONSTANTS Programs <- %s\nCached = {2}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % name
            r = ctx.tlc("Gates", cfg, workers=1)
            prog = re.search(r'<<"PROGRAM", "(.*)">>', r["out"]).group(1).replace('\\"', '"')
            scheds = re.findall(r'<<"SCHEDULE", <<([\d, ]+)>>>>', r["out"])
            if not r["ok"] or not scheds:
                raise Broken("no schedules for " + name)
            f = ctx.path("schedules.json")
            open(f, "w").write("".join("[%s]\n" % x for x in scheds))
            trace = ctx.path("histories.ndjson")
            n = ctx.size(limit, 0)
            ctx.drive(["schedules", "-programs", prog, "-in", f, "-n", str(n), "-seed", str(ctx.seed), "-names", sheets], trace)
            judge(ctx, "History", trace, "schedule of " + name, {"SHEETS": sheets})
            ctx.count("schedules_of_the_specification", len(scheds))
            os.remove(trace)
    return ("schedules", stage)


def raced(profile, relevant, quick, thorough):
    """Random sessions of Mergers that are used at the same time, each by one goroutine, under the race detector."""
    def stage(ctx):
        trace = ctx.path("sessions.ndjson")
        rc, err = ctx.drive(["sessions", "-profile", profile, "-n", str(ctx.size(quick, thorough)), "-seed", str(ctx.seed + 77)], trace, race=True,
                            extra_env={"GORACE": "halt_on_error=1 exitcode=66"})
        if rc != 0:
            rep = race_report(err)
            if not rep and rc == 3 and "harness:" in err:
                raise Broken(err[-2000:])
            if not rep:
                raise Violation("the process died: " + err[:600], {"returncode": rc, "stderr": err[:20000]})
            raise Violation("data race between Mergers: %s" % " ".join(rep.split())[:600], {"report": rep})
        validate(ctx, trace, relevant | ENDS, "sessions " + profile)
        os.remove(trace)
    return ("sessions with the race detector", stage)


def histories(command, module, quick, thorough, race):
    """Histories of threads that run freely, or by random schedules."""
    def stage(ctx):
        n = ctx.size(quick, thorough)
        for k in range(0, n, 2000):
            trace, sheets = ctx.path("histories.ndjson"), ctx.path("sheets.json")
            rc, err = ctx.drive([command, "-n", str(min(2000, n - k)), "-seed", str(ctx.seed * 1000 + k), "-names", sheets], trace, race=race,
                                extra_env={"GORACE": "halt_on_error=1 exitcode=66"} if race else None)
            if rc != 0:
                rep = race_report(err)
                if rep:
                    raise Violation("%s: data race: %s" % (command, " ".join(rep.split())[:600]), {"command": command, "report": rep})
                if rc == 3 and "harness:" in err:
                    raise Broken(err[-2000:])
                raise Violation("%s: the process died: %s" % (command, err[:600]), {"command": command, "returncode": rc, "stderr": err[:20000]})
            judge(ctx, module, trace, command, {"SHEETS": sheets} if module == "History" else None)
            os.remove(trace)
    return (command + (" with the race detector" if race else ""), stage)


VARIANTS = [("code", None), ("get inside", None), ("clear after update", None),
            ("set after unlock", {"Small"}), ("clear before lock", {"Small"}), ("clear after unlock", {"Two"}),
            ("unlock early", {"Small"}), ("fail keeps lock", {"Fails"}), ("no clear", {"Small"})]

CHECKS = {
    "C01": [mergemc(("plain", 3, 3, 3), ("circumstances", 2, 4, 6), ("important", 3, 0, 3)), worlds({"lost"}, ("plain", 3, 4), ("mixed", 3, 4), ("important", 3, 5), ("large", 2, 2), ("lists", 2, 2)), utilities({"lost"}, (1, 12), (300, 1500)), tailwind({"lost"}, 200, 4000), sessions("many", {"lost"}, 120, 1000), sessions("C01", {"lost"}, 1500, 40000)],
    "C02": [mergemc(("plain", 3, 3, 3), ("important", 2, 4, 6)), worlds({"left"}, ("plain", 3, 5), ("mixed", 3, 4), ("deep", 3, 4)), worlds({"left"}, ("large", 2, 2), ("lists", 2, 2), ("nests", 2, 2)), structures({"left"}, ("compounds", 0), ("two", 400), ("three", 300), ("large", 100)), utilities({"left"}, (1, 12), (300, 1500)), tailwind({"left"}, 200, 4000), sessions("many", {"left"}, 120, 1000), sessions("C02", {"left"}, 1500, 40000)],
    "C03": [mergemc(("circumstances", 2, 4, 6), ("circumstances", 3, 0, 3)), findings(condition_colon=[within("supports", "selector(.x :hover)", plain_rule("a", "width")), within("supports", "selector(.x:hover)", plain_rule("b", "width"))]), worlds(SETS, ("media", 2, 4), ("conditions", 2, 3), ("pseudo", 2, 3), ("structures", 2, 3), ("nested", 2, 3), ("scrollbars", 2, 3), ("nests", 2, 2)), structures(SETS, ("compounds", 0), ("deep", 600), ("two", 1000), ("three", 600), ("large", 100)), utilities(SETS, (1, 12), (300, 1500)), tailwind(SETS, 200, 4000), sessions("many", SETS, 120, 1000), sessions("C03", SETS, 1500, 40000)],
    "C04": [mergemc(("important", 3, 3, 4)), worlds(SETS, ("important", 3, 5), ("shortimp", 2, 4), ("mixed", 3, 4), ("large", 2, 2)), utilities(SETS, (1, 12), (300, 1500)), tailwind(SETS, 200, 4000), sessions("many", SETS, 120, 1000), sessions("C04", SETS, 1500, 40000)],
    "C05": [mergemc(("custom", 2, 3, 5), ("important custom", 2, 4, 5), ("custom 1", 3, 0, 3)), worlds(SETS, ("custom", 3, 4), ("cycle", 2, 4), ("customimp", 3, 4), ("longvars", 4, 6), ("customctx", 3, 4), ("uses", 2, 3)), worlds(SETS, ("chain", 2, 2), mode="whole"), varnames(1, 8), utilities(SETS, (1, 12), (300, 1500)), tailwind(SETS, 200, 4000), sessions("manyvars", SETS, 120, 1000), sessions("C05", SETS, 1500, 40000)],
    "C06": [covers(4, 200), worlds(SETS, ("overlap", 3, 4), ("deep", 3, 4), ("shortimp", 2, 3)), utilities(SETS, (1, 12), (300, 1500)), tailwind(SETS, 200, 4000), sessions("many", SETS, 120, 1000), sessions("C06", SETS, 1000, 30000)],
    "C07": [texts(600, 20000), alltexts(TEXTS, "spaces", "ends", "odd", "forms", "zero"),
            sessions("long", {"foreign", "twice", "unknown lost", "order", "short"}, 9, 27)],
    "C08": [calls("Steady", (4, 6), 700, {"unsteady"}, True), mergemc(("important", 2, 4, 5), ("custom", 2, 3, 5)), worlds({"not idempotent"}, ("custom", 3, 4), ("customimp", 3, 4), ("mixed", 3, 4), ("overlap", 3, 4), ("structures", 2, 3), mode="again"), sessions("long", {"unsteady", "not idempotent"}, 9, 27), sessions("C08", {"unsteady", "not idempotent"}, 500, 10000)],
    "C09": [mergemc(("important", 2, 4, 5), ("plain", 3, 3, 4)), worlds({"staged"}, ("mixed", 3, 5), ("important", 3, 4), ("plain", 3, 4), ("shortimp", 3, 4), ("scrollbars", 3, 4), ("structures", 3, 3), ("overlap", 3, 3), ("deep", 3, 3), ("media", 3, 3), ("pseudo", 3, 3), ("nests", 3, 3), ("lists", 3, 3), mode="staged"), sessions("long", {"staged"}, 9, 27), sessions("C09", {"staged"}, 500, 10000)],
    "C10": [alltexts(TEXTS | {"result"}, "spaces", "ends", "odd", "cases", "marks", "forms", "zero"), sessions("confused", {"unsteady", "foreign", "twice", "order", "unknown lost"} | SETS, 3, 40), calls("Cached", (4, 5), 2600, {"unsteady"} | SETS, True), redefinitions(SETS, 300), sessions("C10", {"unsteady"} | SETS, 1000, 15000)],
    "C11": [calls("Extended", (3, 5), 400, SETS | RULES), redefinitions(SETS | RULES, 0), sessions("C11", SETS | RULES, 1000, 20000)],
    "C12": [readers(3, (5, 6), 4000), faults(10000, 0), sessions("big", SETS | RULES | {"accepted", "changed"}, 60, 600), sessions("C12", SETS | RULES | {"accepted", "changed"}, 1000, 20000)],
    "C13": [tokens([("Full", 3, 5, 1000)], (12000, 400000), ["Returned", "Unchanged", "Usable", "Means"])],
    "C14": [atrules(SETS | RULES, 0), findings(at_double_dash="@--x;", skipped_bracket="x|y{a:b)}", skipped_at_bracket="@layer x{)}", skipped_custom="x|y{--x}"), faults(4000, 0), tailwind(SETS | RULES, 300, 4000), tokens([("Full", 4, 5, 0), ("Blocks", 7, 9, 0)], None, ["Returned", "Usable", "Means"]), sessions("C14", SETS | RULES, 1500, 30000)],
    "C15": [system([("Small", "quick"), ("Two", "quick"), ("Fails", "quick"), ("Four", "thorough")], VARIANTS),
            forced(["Stale", "Both", "Chain", "Failing", "Writers", "Readers", "StaleFail"], 2500),
            histories("random-schedules", "History", 2000, 40000, False),
            histories("stress", "History", 700, 12000, True)],
    "C16": [histories("cache-stress", "CacheHistory", 3000, 60000, True), histories("cache-stress", "CacheHistory", 6000, 60000, False)],
    "C17": [idents(("escapes", 5, 5, 6), ("ends", 5, 5, 6), ("marks", 5, 4, 6), ("blocks", 4, 4, 5)), sessions("C17", SETS | RULES, 1500, 30000)],
    "C18": [findings(custom_digit="p{--1a:1px}"), tailwind(RULES, 300, 4000), structures(RULES, ("compounds", 0), ("deep", 0), ("two", 0), ("three", 0), ("large", 0)), sessions("C18", SETS | RULES | {"spaces"}, 2000, 40000)],
    "C19": [selectors(["Returned", "Accepted", "RoundTrip", "SameFound", "Meant"], 4000, 100000, ("nested", 2, 3), ("odd attrs", 2, 3), ("names", 2, 2))],
    "C20": [laws(["ListLaws", "CombinatorLaws", "HasLaws", "StructureLaws"], 3, 4), selectors(["Returned", "Accepted", "Matching", "FoundMatching", "Queries"], 4000, 100000, ("structure", 3, 4), ("nested", 3, 4), ("text", 4, 6),
                      ("fieldsets", 4, 5), ("legends", 5, 6), ("options", 4, 5), ("boxes", 2, 2), ("attrs", 3, 4), ("odd attrs", 2, 3), ("names", 2, 2), ("nth", 4, 7))],
    "C21": [laws(["SpecificityLaws"], 1, 1), selectors(["Returned", "Accepted", "Specificities", "Comparison"], 6000, 150000, ("nested", 1, 1), ("structure", 1, 1))],
    "C22": [calls("Independent", (4, 6), 1300, SETS | RULES, True), raced("C22", SETS | RULES | {"changed"}, 150, 2000), sessions("C22", SETS | RULES | {"changed"}, 1000, 20000)],
    "C24": [structures(SETS | RULES | {"spaces"}, ("compounds", 500), ("deep", 100), ("two", 300), ("three", 100), ("large", 60), mode="print"), tailwind(SETS | RULES, 150, 3000, mode="print"),
            sessions("C24", SETS | RULES | {"spaces"}, 1000, 20000)],
    "C23": [spellings(2500, 60000), sessions("C23", {"unsteady"}, 1200, 20000)],
}


def assumptions(prop):
    return ["the harness renders stylesheets faithfully (its texts are part of every replay)",
            "TLC evaluates the specification correctly"]

T = "TLA+/TLC: "
BOTH = " Exhaustive within the stated worlds of the specification, sampled beyond; the results are computed by TLC, not by the harness."
NOTES = {
    "C01": (T + "MergeMC (algorithm refines the definition Cascade, laws); worlds of rules replayed exhaustively, Tailwind worlds and random sessions validated by Session", "Deviation 'lost'." + BOTH),
    "C02": (T + "MergeMC (Minimal); worlds and selector structures replayed exhaustively, sessions validated by Session", "Deviation 'left'." + BOTH),
    "C03": (T + "worlds of circumstances and all selector structures replayed in pairs and mixed, sessions validated by Session", "Circumstances are abstract data in Sheet." + BOTH),
    "C04": (T + "worlds of important and ordinary declarations, spellings of the flag in sessions, validated by Session", "" + BOTH.strip()),
    "C05": (T + "reachability in Cascade; worlds of definitions and uses, all names and forms of VarNames, sessions validated by Session", "" + BOTH.strip()),
    "C06": (T + "PropTable against all ordered pairs of properties (Covers), worlds of overlapping shorthands", "All pairs are decided by the library; sets of longhands are sampled."),
    "C07": (T + "ClassList reads texts character by character; all texts over small alphabets and random ones replayed", "" + BOTH.strip()),
    "C08": (T + "Session remembers every result for rules and list; results merged again; Calls enumerates histories; MergeMC (Idempotent)", "" + BOTH.strip()),
    "C09": (T + "MergeMC (Staged); all splits of all lists of worlds replayed, validated by Session", "" + BOTH.strip()),
    "C10": (T + "Calls enumerates histories with caches that forget; all texts over confusing alphabets on one cached Merger; sessions", "" + BOTH.strip()),
    "C11": (T + "Calls enumerates histories of AddRules; sessions with Rules and Merge validated by Session", "" + BOTH.strip()),
    "C12": (T + "Readers (all reader behaviours) and Faults (one fault anywhere) replayed, validated by Session", "" + BOTH.strip()),
    "C13": (T + "Tokens: a reader of token sequences next to the implementation's machine; all short sequences and wild ones replayed, judged by Stylesheet", "Termination is judged by a time limit of 20 s per call."),
    "C14": (T + "AtRules (names x preludes x bodies in surroundings) and token sequences replayed, validated by Session and Stylesheet", "" + BOTH.strip()),
    "C15": (T + "MergerSys (with broken variants) model checked; its schedules (Gates) forced on the real code; histories judged for linearizability by History; race detector", "Schedules are forced at cache accesses and reads; within those sections the race detector and free running stress look."),
    "C16": (T + "recorded concurrent histories judged for linearizability by CacheHistory; race detector", "Schedules are those of the runtime, many short histories with contention."),
    "C17": (T + "Ident reads identifiers code point by code point; all short sequences over alphabets replayed (IdentTrace), sessions", "" + BOTH.strip()),
    "C18": (T + "all selector structures and sessions: Rules() compared with the rule table of Sheet", "" + BOTH.strip()),
    "C19": (T + "selectors of worlds and random ones printed and parsed again, judged by SelectorTrace on documents", "" + BOTH.strip()),
    "C20": (T + "Selectors (Selectors 4 as a specification) against the library on all small documents of worlds and random ones; SelectorLaws", "" + BOTH.strip()),
    "C21": (T + "Specificity in Selectors against the library on worlds and random selectors; SelectorLaws", "" + BOTH.strip()),
    "C22": (T + "Calls enumerates histories on two Mergers; sessions on several Mergers, also concurrently with the race detector", "" + BOTH.strip()),
    "C24": (T + "each registered rule printed by ToCssFormat and added to another Merger, whose rules and results Session judges by the rule that was printed: all kinds of selector structures, real output of Tailwind, random sessions", "Structures and sessions are sampled in the quick tier; at-rules are not printed by the library."),
    "C23": (T + "stylesheets in several spellings on a group of Mergers, results compared by Session with each other", "Spellings are sampled."),
}
NOTES["default"] = NOTES["C01"]
