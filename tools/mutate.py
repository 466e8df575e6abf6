"""Random small mutations of the code the properties are anchored in, to find what the checks miss.
usage: mutate.py WORKER SECONDS SEED [FILE-SUBSTRING...]   (works in /tmp/mut/wWORKER, never in /repo)"""
import glob, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w, secs, seed, subs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
base = f"/tmp/mut/w{w}"
repo, har = base + "/repo", base + "/harness"
os.makedirs(base, exist_ok=True)
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {repo}/ || (rm -rf {repo}; mkdir {repo}; cd /repo; tar cf - --exclude target --exclude .git . | tar xf - -C {repo})")
os.makedirs(har, exist_ok=True)
sh(f"cp -r {V}/harness/src {V}/harness/Cargo.toml {V}/harness/Cargo.lock {har}/; sed -i 's#\"/repo/#\"{repo}/#; s/incremental = false/incremental = true/' {har}/Cargo.toml; cp {V}/known_findings.json {base}/; mkdir -p {base}/evidence")
props = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]:
        props.setdefault(f, []).append(p["id"])
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\bsaturating_", "wrapping_"), (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".len() == 1"),
       (r"\bif (?!let\b|!)(.+) \{$", r"if !(\1) {"), (r"\bif (?!let\b)(.+) \{$", r"if false && (\1) {"), (r"\bif !", "if "), (r"\b(\d+)\b(?!\.)", None), (r"push_back\(", "push_front("), (r"pop_front\(", "pop_back("),
       (r"\.first\(\)", ".last()"), (r"\.rev\(\)", ""), (r"continue;", "{}"), (r"break;", "continue;"), (r"return;", "{}")]
def mutants(f):
    t = open(f"{repo}/{f}").read().split("\n")
    out = []
    end = next((i for i, l in enumerate(t) if l.strip().startswith("#[cfg(test)]") and i + 1 < len(t) and "mod " in t[i + 1]), len(t))
    for i, l in enumerate(t[:end]):
        s = l.strip()
        if not s or s.startswith(("//", "#[", "#!", "use ", "pub use", "pub fn", "fn ", "impl", "mod ", "pub mod", "where", "pub struct", "struct", "trait", "pub trait", "type ", "const fn")): continue
        if re.search(r"\b(trace|debug|info|warn|error|assert|debug_assert|assert_eq|panic|expect|unreachable|format|write|metrics|counter|gauge|histogram|trace_span|info_span)!?\(", s): continue
        code = l.split(" // ")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if b is None:
                    n = m.group(1)
                    new = code[:m.start()] + str(int(n) + 1) + code[m.end():]
                    out.append((i, new))
                    if int(n) > 1: out.append((i, code[:m.start()] + str(int(n) - 1) + code[m.end():]))
                else:
                    out.append((i, code[:m.start()] + m.expand(b) + code[m.end():]))
        if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".", "pub ", "const ", "static ")) and re.match(r"[\w*\.]", s):
            out += [(i, "")] * 3
    return t, out
files = [f for f in sorted(props) if not subs or any(x in f for x in subs)]
rnd = random.Random(seed)
pool = []
for f in files:
    t, ms = mutants(f)
    # every file gets its say, long ones more
    k = min(len(ms), 6 + len(ms) // 8)
    pool += [(f, i, n) for i, n in rnd.sample(ms, k)]
rnd.shuffle(pool)
done = set()
for g in glob.glob("/tmp/mut/*.log"):
    for l in open(g):
        try: d = json.loads(l); done.add((d["f"], d["i"], d["new"]))
        except Exception: pass
log = open(f"/tmp/mut/w{w}.log", "a")
env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_SEED="1", VERIF_TIER="quick", VERIF_DIR=base)
env.pop("RUSTFLAGS", None)
build = lambda: subprocess.run("cargo build --offline -q", shell=True, cwd=har, env=env, text=True, capture_output=True)
b = build()
assert b.returncode == 0, b.stderr[-2000:]
t0 = time.time()
for f, i, new in pool:
    if time.time() - t0 > secs: break
    path = f"{repo}/{f}"
    orig = open(path).read()
    t = orig.split("\n")
    old = t[i]
    if old == new or (f, i + 1, new) in done: continue
    t[i] = new
    open(path, "w").write("\n".join(t))
    r = {"f": f, "i": i + 1, "old": old.strip(), "new": new}
    try:
        if build().returncode != 0:
            r["res"] = "no build"
        else:
            r["res"] = "survived"
            r["t"] = {}
            for p in props[f]:
                s = time.time()
                try:
                    c = subprocess.run([har + "/target/debug/lyverif", "check", p], env=env, text=True, capture_output=True, timeout=600, cwd=base)
                    rc = c.returncode
                except subprocess.TimeoutExpired:
                    rc = 124
                r["t"][p] = round(time.time() - s)
                if rc != 0:
                    r["res"] = f"caught {p} {rc}"
                    break
    finally:
        open(path, "w").write(orig)
    log.write(json.dumps(r) + "\n"); log.flush()
