"""C19: the library is a function of its arguments - an effect analysis of the call graph.

Input: the dumped, type-resolved MIR of the library.  From every function a user of the library
can call, all reachable call sites (through generic instances, closures and the bodies of the
standard library that were instantiated) are classified by the resolved callee."""
import re

# what a result could depend on besides the arguments
SOURCES = [
    (r"^(std|core)::env::", "the environment"),
    (r"^std::fs::|^<std::fs::|^std::path::Path::(exists|is_dir|is_file|metadata|read_dir|canonicalize|try_exists|is_symlink|symlink_metadata|read_link)", "the file system"),
    (r"^(std|core)::time::(Instant|SystemTime)|^<std::time::(Instant|SystemTime)", "the clock"),
    (r"^std::net::|^<std::net::", "the network"),
    (r"^std::process::(id|Command|Child)|^<std::process::", "processes"),
    (r"^std::thread::|^<std::thread::", "threads or thread-local state"),
    (r"^std::io::(stdin|Stdin|read_to_string|Read)|^<std::io::Stdin", "standard input"),
    (r"^(std|core)::sync::atomic::|^<(std|core)::sync::atomic::", "shared mutable state"),
    (r"^<?std::sync::(poison::)?(mutex::|rwlock::|mpsc::)?(Mutex|RwLock|Condvar|Barrier|mpsc)", "shared mutable state"),
    (r"^std::sync::(once_lock::)?OnceLock::<T>::(set|take|get_mut|try_insert)", "shared mutable state"),
    (r"RandomState", "a random hash seed"),
    (r"fmt::rt::Argument.*::new_pointer", "memory addresses"),
    (r"^(std|core)::ptr::(addr|expose|hash)|<impl \*(const|mut) T>::(addr|expose_provenance)", "memory addresses"),
    (r"^(std|core)::arch::|^core::core_arch::", "machine instructions"),
    (r"^std::alloc::(System|alloc)$", "the allocator"),
    (r"^std::backtrace::", "the call stack"),
    (r"available_parallelism", "the machine"),
]
HASH = re.compile(r"(HashMap|HashSet)")
HASH_ORDER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|into_iter|drain|retain|extract_if|fmt|difference|union|intersection|symmetric_difference)$")
RANDOM_OK = re.compile(r"(HashMap|HashSet)|^<?std::hash::|BuildHasher")


def run(lib, binary):
    fns, types = lib["fns"], lib["types"]
    finds, und = [], []
    sites = 0
    by = {f["full"]: i for i, f in enumerate(fns) if f}
    roots = [i for i, f in enumerate(fns) if f and f["crate"] == "mofmt" and f["path"] in ("parse", "pretty_print", "build_tree", "parser::parse", "parser::tree::build_tree")]
    # everything else that belongs to the crate is analysed as well (all of it is reachable or dead)
    roots += [i for i, f in enumerate(fns) if f and f["crate"] == "mofmt" and i not in roots and not f["path"].startswith("tests::")]
    seen, work, via = set(roots), list(roots), {}
    used = set()
    calls = []

    def add(func, span, rule, msg):
        path, i = [], by.get(func["full"])
        while i is not None and len(path) < 12:
            path.append("%s (%s)" % (fns[i]["path"], fns[i]["span"]))
            i = via.get(i)
        finds.append({"props": ["C19"], "rule": rule, "func": owner(func), "span": span, "msg": msg, "path": list(reversed(path))})

    def owner(func):
        i = by.get(func["full"])
        n = 0
        while i is not None and fns[i]["crate"] != "mofmt" and n < 50:
            i = via.get(i)
            n += 1
        return fns[i]["path"] if i is not None else func["path"]

    def ty(i):
        return types[i]

    while work:
        i = work.pop()
        f = fns[i]
        local = f["crate"] == "mofmt"
        for b in f["blocks"]:
            if b.get("cleanup"):
                continue
            text = [b["t"]] + b["s"]

            def walk(x, span):
                nonlocal sites
                if isinstance(x, dict):
                    if x.get("c") == "static":
                        used.add((x["path"], f["path"], span))
                    if "decl" in x and "path" in x:
                        sites += 1
                        p, d = x["path"] or "", x["decl"] or ""
                        j = x.get("fn")
                        if j is not None and j not in seen and fns[j]:
                            seen.add(j)
                            via[j] = i
                            work.append(j)
                        names = {p, d}
                        calls.append(p)
                        if local:
                            hash_recv = any(HASH.search(ty(t)["s"]) for t in x.get("dargs", [])[:1]) or HASH.search(p)
                            if hash_recv and any(HASH_ORDER.search(n) for n in names):
                                add(f, span, "hash-order", "the order of a hash table, which differs from run to run, is observed: %s" % p)
                                return
                            for n in names:
                                for rx, what in SOURCES:
                                    if re.search(rx, n) and not (what == "a random hash seed" and RANDOM_OK.search(n)):
                                        add(f, span, "effect", "the result can depend on %s: %s" % (what, p))
                                        return
                            if re.search(r"(OnceLock|OnceCell|LazyLock|LazyCell)", p) and re.search(r"(get_or_init|get_mut_or_init|LazyLock::<T, F>::new|get_or_try_init)", p):
                                for t in x.get("dargs", []):
                                    tt = ty(t)
                                    if tt.get("k") == "closure" and tt.get("f"):
                                        add(f, span, "global-state", "a value that is kept for later calls is computed from the arguments of this one: %s" % p)
                    for v in x.values():
                        walk(v, span)
                elif isinstance(x, list):
                    if x and x[0] == "tls":
                        used.add((x[1], f["path"], span))
                        if local:
                            add(f, span, "global-state", "thread-local state is used: %s" % x[1])
                    if x and x[0] == "cast" and len(x) > 1 and isinstance(x[1], str) and "Expose" in x[1] and local:
                        add(f, span, "effect", "the result can depend on memory addresses")
                    for v in x:
                        walk(v, span)

            for st in text:
                span = next((v for v in reversed(st) if isinstance(v, str) and ":" in v and "/" in v), f["span"])
                walk(st, span)
    for path, mutable, span in lib["statics"]:
        if mutable and any(u[0] == path for u in used):
            u = next(u for u in used if u[0] == path)
            finds.append({"props": ["C19"], "rule": "global-state", "func": u[1], "span": u[2], "msg": "mutable static %s is used" % path, "path": [u[2]]})
    # one report per function, rule and message
    uniq = {}
    for x in finds:
        uniq.setdefault((x["rule"], x["func"], x["msg"]), x)
    nloc = sum(1 for i in seen if fns[i]["crate"] == "mofmt")
    return {
        "client": "effects",
        "findings": list(uniq.values()),
        "undecided": {},
        "stats": {"functions": nloc, "instances": len(seen), "call_sites": sites, "distinct_callees": len(set(calls)), "statics": len(lib["statics"]), "obligations": sites},
        "function_names": sorted({fns[i]["path"] for i in seen if fns[i]["crate"] == "mofmt"}),
    }
