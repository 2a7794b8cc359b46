"""Parts of checks that concern several builds: C04 (settings) and C18 (enums that are too big)."""
import concurrent.futures as cf, json, os, re, shutil

GARBAGE = ["", "60", "47bits", "64bits", "48 bits", "63BITS", "bits48", "48bits "]


def oracle(setting):
    m = re.fullmatch(r"([0-9]{2})bits", setting or "")
    return int(m.group(1)) if m and 48 <= int(m.group(1)) <= 63 else 60


def env_setting(m, setting, debug=True):
    e = m.env_for(None, debug)
    if setting is not None:
        e["TAGGED_BOX_RESERVED_WIDTH"] = setting
    return e


def settings(m, pid, tier, seed, budget):
    """Chains of settings, each chain in one target directory: what counts is the setting in
    effect at each build, also after a change of it."""
    every = [f"{w}bits" for w in range(48, 64)]
    mixed = [None] + every[0::2] + [GARBAGE[seed % len(GARBAGE)]] + every[1::2]
    others = [g for i, g in enumerate(GARBAGE) if i != seed % len(GARBAGE)]
    if tier == "quick":
        k = 5
        steps = mixed + others[:3]
        chains = [steps[i::k] for i in range(k)]
        # the default after a setting, and a setting after the default
        chains[1].append(None)
        chains[2].append(None)
        chains[3] += ["56bits"]
    else:
        steps = mixed + others
        chains = [steps[i::4] + list(reversed(steps))[i::4] for i in range(4)] + [[None, s, None] for s in every] + [["60bits", g, "48bits"] for g in GARBAGE]
    rdir = os.path.join(m.HERE, "evidence", "replay", pid)
    res = dict(violations=[], undecided=[], notes=[], obligations=0, discharged=0, coverage={}, cmd="")
    done = []

    def chain(i):
        d = os.path.join(m.HERE, ".build", pid, f"chain{i}")
        out = []
        prev = []
        for n, s in enumerate(chains[i]):
            os.makedirs(d, exist_ok=True)
            j = os.path.join(d, "out.json")
            if os.path.exists(j):
                os.remove(j)
            cmd = ["cargo", "kani", "--lib", "--features", "c04", "--target-dir", d, "-Z", "unstable-options", "--no-assertion-reach-checks",
                   "-j", "3", "--output-format", "terse", "--export-json", j, "--harness-timeout", "60s"]
            rc, log = m.sh(cmd, env_setting(m, s), min(120, m.left(budget)))
            r = dict(setting=s, before=list(prev), cmd=" ".join(cmd), harnesses=[], log="")
            try:
                x = json.load(open(j))
                meta = {h["pretty_name"]: h for h in x.get("harness_metadata", [])}
                r["harnesses"] = [m.judge(h, meta.get(h["harness_id"], {})) for h in x["verification_results"]["results"]]
                r["solver_s"] = sum(((c.get("cbmc_metadata") or {}).get("cbmc_stats") or c.get("cbmc_stats") or {}).get("runtime_decision_procedure_s") or 0 for c in x.get("cbmc", []))
                r["versions"] = x.get("tools", {})
            except (OSError, ValueError, KeyError):
                r["log"] = log[-3000:]
                r["timeout"] = rc is None
            prev.append(s)
            out.append(r)
        shutil.rmtree(d, ignore_errors=True)
        return out

    def native(prev, s, name):
        """The same in compiled form: the builds in that order, then the harness."""
        d = os.path.join(m.HERE, ".build", pid, "native-chain")
        shutil.rmtree(d, ignore_errors=True)
        for p in prev[-1:] + [s]:
            rc, log = m.sh(["cargo", "build", "--offline", "--features", "c04", "--target-dir", d], env_setting(m, p), min(150, m.left(budget)))
        if rc != 0:
            return (rc is not None), f"does not compile with TAGGED_BOX_RESERVED_WIDTH={s!r}: " + "\n".join(re.findall(r"^error.*(?:\n.*){0,6}", log, re.M))[:1500]
        exe = os.path.join(d, "debug", "tbv-native")
        for h in [name] if name else m.native_list(exe, env_setting(m, s)):
            st, info = m.native_rand(exe, env_setting(m, s), h, seed, 3000, 30)
            if st == "fail":
                return True, f"{h}: {info}"
        return False, ""

    with cf.ThreadPoolExecutor(5) as ex:
        rs = list(ex.map(chain, range(len(chains))))
    solver = 0.0
    for out in rs:
        for r in out:
            s = r["setting"]
            res["cmd"] = res["cmd"] or r["cmd"]
            show = "unset" if s is None else repr(s)
            if not r["harnesses"]:
                res["obligations"] += 1
                if r.get("timeout"):
                    res["undecided"].append(f"setting {show}: time ran out")
                    continue
                ok, text = native(r["before"], s, None)
                if not ok:
                    res["undecided"].append(f"setting {show}: the verifier does not accept the program: {r['log'][-300:]}")
                    continue
                p = os.path.join(rdir, f"setting-{len(res['violations'])}.json")
                json.dump(dict(property=pid, setting=s, built_before_in_the_same_directory=r["before"], failed="the crate does not compile with this setting", output=text, confirmed=True), open(p, "w"), indent=1)
                res["violations"].append((p, True, f"setting {show}: {text[:200]}"))
                continue
            solver += r.get("solver_s") or 0
            for h in r["harnesses"]:
                res["obligations"] += h["obligations"]
                res["discharged"] += h["discharged"]
                done.append((show, h["name"], h["verdict"]))
                if h["verdict"] == "undecided":
                    res["undecided"].append(f"setting {show}: {h['name']}: {h['why']}")
                elif h["verdict"] == "violation":
                    ok, text = native(r["before"], s, h["name"]) if len(res["violations"]) < 4 else (False, "not replayed")
                    p = os.path.join(rdir, f"setting-{len(res['violations'])}.json")
                    d = os.path.join("/tmp", "c04-replay")
                    json.dump(dict(property=pid, setting=s, built_before_in_the_same_directory=r["before"], harness=h["name"], failed=h["fails"], where=h.get("where", []), confirmed=ok, native_output=text,
                                   replay=f"in {m.HERE}/harness, with one --target-dir: cargo build --features c04 with TAGGED_BOX_RESERVED_WIDTH={r['before'][-1:]}, then with {s!r}, then run: tbv-native rand {h['name']} {seed} 3000"), open(p, "w"), indent=1)
                    res["violations"].append((p, ok, f"setting {show}: {h['name']}: " + "; ".join(h["fails"])[:300]))
    res["coverage"] = dict(settings=sorted({a for a, _, _ in done}), builds=len({(i, j) for i, o in enumerate(rs) for j, _ in enumerate(o)}), setting_changes=sum(len(c) - 1 for c in chains),
                           harnesses=len(done), harnesses_discharged=sum(v == "ok" for _, _, v in done), solver_seconds=round(solver, 2))
    return res


def kind(shape, i):
    """The kind of variant i: shapes 0 to 4 rotate through the kinds, shape 5 is mostly units."""
    if i == 1 and shape % 2:
        return 5  # () is the payload of one empty tuple at most
    return (i + shape) % 5 if shape < 5 else {2: 4, 3: 1, 4: 2, 5: 3}.get(i, 0)


def enum_text(n, shape):
    """An enum with n variants. Shapes differ in what the last variants hold."""
    vs = []
    for i in range(n):
        vs.append([f"V{i}", f"V{i}([u32; {i + 1}])", f"V{i}(u8, [u16; {i + 1}])", f"V{i} {{ a: u16, b: u8 }}", f"V{i} {{ a: u16, b: u8, }}", f"V{i}()"][kind(shape, i)])
    return ", ".join(vs) + ","


def value(n, shape, i):
    return [f"E::V{i}", f"E::V{i}([{i}; {i + 1}])", f"E::V{i}(1, [{i}; {i + 1}])", f"E::V{i} {{ a: {i}, b: 1 }}", f"E::V{i} {{ a: {i}, b: 1 }}", f"E::V{i}()"][kind(shape, i)]


def probe(n, cap, shape):
    body = "".join(f"    boxed(|| {value(n, shape, i)}, {i}, {str(i >= cap).lower()}, &mut seen, &mut bad);\n" for i in range(n))
    return f"""#![recursion_limit = "8192"]
#![allow(warnings)]
use tagged_box::{{tagged_box, TaggableContainer, TaggableInner, TaggedBox}};
tagged_box! {{ #[derive(Clone, Debug, PartialEq)] pub struct C, pub enum E {{ {enum_text(n, shape)} }} }}
fn boxed(f: impl Fn() -> E + std::panic::UnwindSafe + std::panic::RefUnwindSafe, i: u64, excess: bool, seen: &mut Vec<(u64, u64)>, bad: &mut u32) {{
    match std::panic::catch_unwind(|| f().into_tagged_box().discriminant() as u64) {{
        Ok(d) => {{
            if excess {{ println!("variant {{i}} is one too many, but was boxed with discriminant {{d}}"); *bad += 1 }}
            if let Some((_, j)) = seen.iter().find(|(e, _)| *e == d) {{ println!("variants {{j}} and {{i}} share discriminant {{d}}"); *bad += 1 }}
            seen.push((d, i));
            match std::panic::catch_unwind(|| C::from(f()).into_inner() == f() && E::from_tagged_box(f().into_tagged_box()) == f()) {{
                Ok(true) => (),
                _ if excess => (),
                _ => {{ println!("variant {{i}} does not come back"); *bad += 1 }}
            }}
        }}
        Err(_) => if !excess {{ println!("variant {{i}} fits, but was rejected"); *bad += 1 }},
    }}
}}
fn main() {{
    std::panic::set_hook(Box::new(|_| ()));
    let (mut seen, mut bad) = (vec![], 0);
{body}    println!("{{}} variants boxed", seen.len());
    std::process::exit((bad > 0) as i32)
}}
"""


def excess(m, pid, tier, seed, budget):
    """Enums around the capacity: too big must be rejected, exactly full must be accepted."""
    widths = [63, 62, 61, 60, 59, 56] if tier == "quick" else [63, 62, 61, 60, 59, 58, 57, 56, 55]
    jobs = []
    for w in widths:
        cap = 1 << (64 - w)
        if tier == "quick":
            shapes = [(seed + w) % 5, 5] if w > 60 else [(seed + w) % 5] if w > 58 else [5]
            more = (1, cap) if w > 60 else (1,)
            if w == 60:
                # 257: one more than the counter's type can hold
                shapes, more = shapes + [5], (1, 257 - cap)
        else:
            shapes = range(6) if w > 58 else [5, w % 5] if w > 56 else [5]
            more = (1, 2, cap, 257 - cap) if w > 59 else (1,)
        jobs.append((w, cap, shapes, more, w % 2 == 0))
    rdir = os.path.join(m.HERE, "evidence", "replay", pid)
    res = dict(violations=[], undecided=[], notes=[], coverage={}, obligations=0, discharged=0)
    rows = []

    def at(job):
        w, cap, shapes, more, debug = job
        d = os.path.join(m.HERE, ".build", pid, f"excess-{w}")
        os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
        open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "excess"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\ntagged-box = { path = "' + m.REPO + '" }\n')
        open(os.path.join(d, "src", "lib.rs"), "w").write("")
        e = m.env_for(w, debug)
        out = []
        for s in shapes:
            for n in [cap] + [cap + k for k in more]:
                name = f"e{n}_{s}"
                src = probe(n, cap, s)
                f = os.path.join(d, "src", "bin", name + ".rs")
                open(f, "w").write(src)
                rc, log = m.sh(["cargo", "build", "--offline", "--bin", name], e, min(240, m.left(budget)), cwd=d)
                if rc is None:
                    out.append((w, cap, n, s, "timeout", "", src))
                elif rc:
                    out.append((w, cap, n, s, "rejected" if n > cap else "refused", "\n".join(re.findall(r"^error.*(?:\n.*){0,6}", log, re.M))[:1500], src))
                else:
                    rc, log = m.sh([os.path.join(d, "target", "debug", name)], e, 60, cwd=d)
                    out.append((w, cap, n, s, "runs" if rc == 0 else "wrong", log[-1500:], src))
                os.remove(f)
        shutil.rmtree(d, ignore_errors=True)
        return out
    with cf.ThreadPoolExecutor(5) as ex:
        for out in ex.map(at, jobs):
            rows += out
    fits = {(w, s) for w, cap, n, s, v, _, _ in rows if n == cap and v == "runs"}
    for w, cap, n, s, v, log, src in rows:
        what = f"{w}bits: an enum with {n} variants ({cap} discriminants, shape {s})"
        if v == "timeout":
            res["undecided"].append(what + ": time ran out")
        elif v in ("wrong", "refused"):
            p = os.path.join(rdir, f"excess-{w}-{n}-{s}.json")
            json.dump(dict(property=pid, failed=what, output=log, confirmed=True, program=src, replay=f"compile the program against {m.REPO} with TAGGED_BOX_RESERVED_WIDTH={w}bits and run it"), open(p, "w"), indent=1)
            res["violations"].append((p, True, what + ": " + (log.strip().splitlines() or [""])[0][:200]))
        elif v == "rejected" and (w, s) not in fits:
            res["undecided"].append(what + ": rejected, but so is the enum that fits")
    res["coverage"] = dict(compiled_enums=[dict(width=w, capacity=cap, variants=n, shape=s, verdict=v) for w, cap, n, s, v, _, _ in rows],
                           compiled_enums_note="the compiler's const evaluation decides these (an obligation of the macro's expansion); not counted among the obligations")
    return res
