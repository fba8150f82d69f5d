"""The tools which gather results and prepare data: every figure, file, user, author they are given comes out, and where it belongs."""
import contextlib, csv, importlib, io, json, os, pickle, re, shutil, tempfile
import numpy as np
import scipy.sparse as ssp
from vlib.core import rng_of, quiet
from checks.p24 import program

META = dict(rule="distinct (tool, shape of input, options, optional parts missing) run on generated files",
            min_events={"compendia": 40, "figures": 20000, "matrices": 60, "selections": 60, "papers": 150, "reports": 40},
            assumptions=["compendia are pasted from the program's own final tables, below a title of an algorithm and its number of topics",
                         "what is missing can be told to be missing (see DESIGN.md)"])

GROUPS = [(-1, -1), (0, 3), (3, 5), (5, 10), (10, 1000)]
NAMES = ["0->", "0->3", "3->5", "5->10", "10->"]
ROLLED = {"3->": [2, 3, 4], "5->": [3, 4]}
MS = [10, 20, 30, 40, 50, 75, 100, 150, 250, 500]


def cases(tier, seed):
    n = 1280 if tier == "quick" else 5120
    for i in range(n):
        yield dict(i=i, seed=seed, what=["compendium", "matrix", "users", "papers", "reports"][i % 5])


def run_case(case, mon):
    rng = rng_of(case["i"], case["seed"], "p25")
    where = tempfile.mkdtemp(prefix="verif_p25_")
    try:
        globals()[case["what"]](rng, mon, where)
    finally:
        shutil.rmtree(where, ignore_errors=True)


def mod(name):
    return importlib.import_module("sidetopics.run." + name)


# --- compendia of results

def table(rng):
    counts = {g: int(rng.choice([0, 1, 7, 120, 9999])) for g in GROUPS[1:]}
    counts[GROUPS[0]] = sum(counts.values()) + int(rng.randint(0, 3))
    scores = {g: [float(x) if counts[g] else 0.0 for x in rng.random_sample(len(MS))] for g in GROUPS}
    if rng.randint(2):     # in any order, the program sorts them
        scores = {g: scores[g] for g in [GROUPS[k] for k in rng.permutation(5)]}
    return scores, counts


def compendium(rng, mon, where):
    prog, tool = program(), mod("reshape_results")
    n = int(rng.choice([1, 2, 3, 6, 12]))
    entries, text, order = [], io.StringIO(), []
    words = ["in-sample", 'the "best", so far', "fold 2", "a=b, K=3", "#1 choice", "", "", "trained on links,words"]
    for j in range(n):
        name = str(rng.choice(["LRO", "MTM2/vb", "sim-tfidf", 'odd"name', "lda_cvb0"]))
        K = str(int(rng.choice([5, 10, 25, 100, 250])))
        e = dict(name=name, K=K, desc=str(rng.choice(words)))
        e["perp"] = None if rng.randint(3) == 0 else float(rng.choice([1.5, 87.25, 1234.5, 99999.75]))
        e["precs"] = table(rng)
        e["recs"] = ({g: [v / 2 for v in e["precs"][0][g]] for g in e["precs"][0]}, e["precs"][1]) if rng.randint(2) else table(rng)
        e["mrr"], e["map"] = float("%.6f" % rng.random_sample()), float("%.6f" % rng.random_sample())
        gone = str(rng.choice(["", "", "", "precs", "recs", "mrr", "map"]))
        if gone == "precs" and e["perp"] is None:
            gone = ""
        if gone:
            e[gone] = None
        entries.append(e)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            print(("%s, K=%s %s" % (name, K, e["desc"])).rstrip() if rng.randint(2) else ("%s %s %s" % (name, K, e["desc"])).rstrip())
            if rng.randint(4) == 0:
                print()
            if e["perp"] is not None:
                print("Training perplexity is %.2f " % e["perp"])
            if e["precs"]:
                prog.printTable("Precision", e["precs"][0], e["precs"][1], MS)
            if e["recs"]:
                prog.printTable("Recall", e["recs"][0], e["recs"][1], MS)
            if e["mrr"] is not None:
                print("Mean reciprocal-rank: %f" % e["mrr"])
            if e["map"] is not None:
                print("Mean average-precision: %f" % e["map"])
        text.write(out.getvalue())
        apart = int(rng.choice([0, 1, 1, 2, 3]))
        if e["map"] is None:
            apart = max(apart, 1)
        if apart >= 3:
            text.write("\n# a remark\n\n")
        else:
            text.write("\n" * apart)
    text = text.getvalue()
    if rng.randint(3) == 0:
        text = "\n# results of this week\n\n" + text
    if rng.randint(3) == 0:
        text = text.rstrip("\n")
    if rng.randint(3) == 0:
        text = text.replace("\n", "\r\n") if rng.randint(2) else text.replace("\n", " \n")
        text = re.sub(r"(?m)^ $", "", text)
    src, dst = os.path.join(where, "in.txt"), os.path.join(where, "out.csv")
    with open(src, "w", newline="") as f:
        f.write(text)
    with quiet():
        tool.run([src, dst])
    with open(dst, newline="") as f:
        rows = list(csv.DictReader(f))
    mon.count("compendia")
    per = 7 * len(MS)
    if not mon.expect(len(rows) == n * per, "compendium:lost", "the table does not have all results", got=len(rows), want=n * per, results=n):
        return
    for j, e in enumerate(entries):
        mine = rows[j * per:(j + 1) * per]
        where_ = dict(result=j, of=n)
        mon.expect(all((r["Algor"], r["TopicCount"]) == (e["name"], e["K"]) and r["TrainDesc"] == e["desc"].strip() for r in mine), "compendium:title", "a result has the title of another, or a garbled one",
                   got=(mine[0]["Algor"], mine[0]["TopicCount"], mine[0]["TrainDesc"]), want=(e["name"], e["K"], e["desc"]), **where_)
        for key, col in (("mrr", "MRR"), ("map", "MAP"), ("perp", "Perplexity")):
            if e[key] is None:
                mon.expect(all(r[col] in ("", "-1") for r in mine), "compendium:" + key, "a figure which was not given is reported", got=mine[0][col], **where_)
            else:
                mon.close([float(r[col] or "nan") for r in mine], [e[key]] * per, "compendium:" + key, "a figure differs from the one given", rtol=0, atol=1e-9)
        want, seen = {}, set()
        for key, col in (("precs", "Precision"), ("recs", "Recall")):
            for k, g in enumerate(NAMES):
                want[col, g] = [float("%.3f" % v) for v in e[key][0][GROUPS[k]]] if e[key] else [0.0] * len(MS)
            for g, parts in ROLLED.items():
                total = max(sum(e[key][1][GROUPS[k]] for k in parts), 1) if e[key] else 1
                want[col, g] = [sum(want[col, NAMES[k]][c] * e[key][1][GROUPS[k]] for k in parts) / total if e[key] else 0.0 for c in range(len(MS))]
        for r in mine:
            seen.add((r["Group"], r["M"]))
            c = [str(m) for m in MS].index(r["M"])
            for col in ("Precision", "Recall"):
                mon.expect(abs(float(r[col]) - want[col, r["Group"]][c]) < 1e-9, "compendium:" + col.lower(), "a figure differs from the one given", group=r["Group"], at=r["M"], got=r[col], want=want[col, r["Group"]][c], **where_)
                mon.count("figures")
            if e["precs"]:
                parts = ROLLED.get(r["Group"]) or [NAMES.index(r["Group"])]
                mon.expect(int(r["DocCount"]) == sum(e["precs"][1][GROUPS[k]] for k in parts), "compendium:documents", "a number of documents differs from the one given", group=r["Group"], **where_)
        mon.expect(len(seen) == per, "compendium:rows", "a group or cut-off is missing, or there twice", **where_)
        mon.seen("compendium", n, e["name"], e["K"], e["desc"], e["perp"] is None, e["precs"] is None, e["recs"] is None, e["mrr"] is None, e["map"] is None)


# --- numbers in text files

def matrix(rng, mon, where):
    tool = mod("text_to_numpy")
    for _ in range(2):
        R, C = int(rng.choice([1, 2, 7, 40])), int(rng.choice([1, 2, 5, 30]))
        kind = str(rng.choice(["tags", "counts", "signed", "fractions", "late", "exponents", "zeros"]))
        if kind == "tags":
            X = rng.randint(0, 2, (R, C))
        elif kind == "counts":
            X = rng.randint(0, 2 ** 31 - 1, (R, C))
        elif kind == "signed":
            X = rng.randint(-50, 50, (R, C))
        elif kind == "zeros":
            X = np.zeros((R, C), dtype=int)
        else:
            X = rng.standard_normal((R, C)) * 10.0 ** rng.randint(-5, 4, (R, C)) * (rng.random_sample((R, C)) < 0.6)
        if kind == "late":     # the first rows are whole numbers
            X[:max(R - 1, 1)] = np.round(X[:max(R - 1, 1)] * 10)
        fmt = (lambda v: "%.7e" % v) if kind == "exponents" else (lambda v: "%d" % v if v == int(v) else "%.8f" % v)
        if kind == "exponents" and rng.randint(2):
            fmt = lambda v: "0" if v == 0 else "%.0e" % v
        seps = [" ", "\t", "  "]
        rows = [[fmt(v) for v in r] for r in X]
        want = np.array([[float(t) for t in r] for r in rows]).reshape(R, C)
        lines = [(str(rng.choice(["", " "])) + str(rng.choice(seps)).join(r) + str(rng.choice(["", " "]))) for r in rows]
        name = str(rng.choice(["Tags.dat", "a.b.txt"]))
        src = os.path.join(where, name)
        bad = str(rng.choice(["", "", "", "", "rows", "fewer", "short", "long", "word"]))
        count = R
        if bad == "rows":
            count = R + int(rng.randint(1, 4))
        elif bad == "fewer" and R > 1:
            count = R - 1
        elif bad == "short" and C > 1 and R > 1:
            k = int(rng.randint(1, R))
            lines[k] = " ".join(rows[k][:int(rng.randint(1, C))])
        elif bad == "long" and R > 1:
            k = int(rng.randint(1, R))
            lines[k] = " ".join(rows[k] + ["7"])
        elif bad == "word":
            k = int(rng.randint(R))
            lines[k] = " ".join(rows[k][:-1] + ["x7"])
        else:
            bad = ""
        body = "\n".join(lines) + ("\n" if rng.randint(4) else "")
        with open(src, "w") as f:
            f.write(body)
        with open(src + ".cnt", "w") as f:
            f.write("  %d %s\n" % (count, src))
        with quiet():
            mon.expect(tool.read_wc_l_output(src + ".cnt") == count, "matrix:count", "the number of lines was read wrongly")
        for sparse in (False, True):
            dst = src[:-4] + ".npy"
            if os.path.exists(dst):
                os.remove(dst)
            try:
                with quiet():
                    (tool.save_as_numpy_sparse if sparse else tool.save_as_numpy)(src, count)
                done = True
            except (SystemExit, ValueError, IndexError):
                done = False
            mon.count("matrices")
            which = "sparse" if sparse else "dense"
            if bad:
                mon.expect(not done and not os.path.exists(dst), "matrix:accepted", "a malformed file was converted", what=bad, which=which, rows=R, columns=C)
                continue
            if not mon.expect(done and os.path.exists(dst), "matrix:refused", "a good file was not converted", kind=kind, which=which):
                continue
            with open(dst, "rb") as f:
                got = pickle.load(f)
            mon.expect(ssp.issparse(got) == sparse and got.shape == (R, C), "matrix:shape", "the matrix has not the shape of the file", got=got.shape, want=(R, C))
            got = np.asarray(got.todense() if sparse else got)
            whole = kind in ("tags", "counts", "signed", "zeros")
            mon.close(got.astype(float), want, "matrix:values", "the matrix has not the values of the file", rtol=0 if whole else 2e-7, atol=0)
            mon.expect(open(src).read() == body, "matrix:input", "the input was changed")
        mon.seen("matrix", kind, R, C, bad, name)


# --- selection of users

def users(rng, mon, where):
    tool = mod("selectusers")
    for _ in range(2):
        G = int(rng.choice([1, 2, 3, 5, 8]))
        sizes = str(rng.choice(["even", "skewed", "tiny-group", "empty-group"]))
        rows, total = [], {}
        low, high = (0, 4000000000) if rng.randint(2) else (20, 900)
        for g in range(G):
            n = int(rng.randint(1, 12))
            scale = 100 if sizes != "skewed" else 10 ** int(rng.randint(1, 4))
            if sizes == "tiny-group" and g == G // 2:
                n, scale = 1, 3
            for u in range(n):
                name = "g%du%d" % (g, u) + str(rng.choice(["", ".x", "_y"]))
                parts = 1 + int(rng.randint(3) == 0)
                for p in range(parts):     # a user's tweets can be in several files
                    c = int(rng.randint(1, 2 * scale + 1))
                    if sizes == "empty-group" and g == 0:
                        c = 1
                    rows.append((c, "group %d" % g, name + str(rng.choice([".txt", ".gz", ".txt"]))))
                    total.setdefault("group %d" % g, {}).setdefault(name, 0)
                    total["group %d" % g][name] += c
        rows = [rows[k] for k in rng.permutation(len(rows))]
        src = os.path.join(where, "counts.txt")
        with open(src, "w") as f:
            f.write("".join("%d\t%s\t%s\n" % r for r in rows))
        with quiet():
            got = tool.read_counts(src, low, high)
        want = {g: {u: c for u, c in us.items() if low < c < high} for g, us in total.items()}
        mon.expect(got == want, "users:counts", "the users' counts are not those of the file", got=str(got)[:300], want=str(want)[:300])
        every = {g: sum(us.values()) for g, us in want.items()}
        S = sum(every.values())
        for target in sorted({1, G, max(1, int(S * rng.random_sample())), max(1, min(every.values()) * G), max(S - 1, 1), max(S, 1), S + 1 + int(rng.randint(1, 2 * S + 5))}):
            kept = {g: dict(us) for g, us in want.items()}
            with quiet():
                shares = tool.select_group_contribs(kept, target)
                chosen = tool.select_users(kept, shares)
            mon.count("selections")
            about = dict(target=target, shares=shares, totals=every)
            mon.expect(kept == want, "users:modified", "the counts were changed", **about)
            mon.expect(set(shares) == set(every) and all(0 <= shares[g] <= every[g] for g in every), "users:share", "a group is to give more than it has", **about)
            given = sum(shares.values())
            mon.expect(min(target, S) - G < given <= target + G, "users:target", "the shares do not add up to the target", **about)
            if target >= S:
                mon.expect(given == S, "users:all", "not everything is taken though the target is no less", **about)
            rest = [shares[g] for g in every if shares[g] < every[g]]
            full = [shares[g] for g in every if shares[g] == every[g]]
            mon.expect(not rest or max(rest) - min(rest) <= 1 and all(s <= max(rest) + 1 for s in full), "users:equal", "groups which have more to give give unequal shares", **about)
            for g, us in want.items():
                mine = [us[u] for u in us if u in chosen]
                acc = sum(mine)
                mon.expect(acc >= shares[g], "users:too-few", "the users selected from a group have less than its share", group=g, **about)
                mon.expect(not mine or acc - max(mine) < shares[g] or min(acc - m for m in mine) < shares[g], "users:too-many", "more users are selected from a group than needed", group=g, **about)
            mon.expect(set(chosen) <= {u for us in want.values() for u in us}, "users:stranger", "a user is selected who is not in the counts", **about)
        with quiet():
            tool.InputFile, tool.TweetTargetCount, tool.MinPerUserTweet, tool.MaxPerUserTweet = src, max(S, 1), low, high
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            tool.run([])
        names = out.getvalue().splitlines()[G + 1:]
        everyone = sorted(u for us in want.values() for u in us)
        mon.expect(sorted(n for n in names if n) == everyone, "users:run", "not all users are listed though all are needed", got=names[:8], want=everyone[:8])
        mon.seen("users", G, sizes, low, len(rows))


# --- records of papers

FIRST = ["Anna", "J.", "J. B.", "Mary Ann", "K.", "T. L. S.", "Jos\\'e"]
LAST = ["Smith", "Jones", "Anderson", "Brandt", "Orlando", "M\\\"uller", "O'Neil", "Sandhu"]
PREFIX = ["van", "de", "von", "della", "del", "di", "Mc", "mac", "O", "d'"]
SUFFIX = ["Jr", "III", "II", "Sr", "Jr.", "PhD"]


def person(rng):
    first, last = str(rng.choice(FIRST)), str(rng.choice(LAST))
    form = str(rng.choice(["plain", "plain", "plain", "prefix", "suffix", "initials", "single", "spaces"]))
    if form == "prefix":
        p = str(rng.choice(PREFIX))
        return "%s %s %s" % (first, p, last), "%s %s, %s" % (p, last, first)
    if form == "suffix":
        s = str(rng.choice(SUFFIX))
        return "%s %s %s" % (first, last, s), "%s %s, %s" % (last, s, first)
    if form == "initials":
        return "J.R.%s" % last, "%s, J. R." % last
    if form == "single":
        return last, last
    if form == "spaces":
        return "%s   %s" % (first.replace(" ", "  "), last), "%s, %s" % (last, first)
    return "%s %s" % (first, last), "%s, %s" % (last, first)


def wrap(rng, text):
    """the text over several lines, as the archive does"""
    words, lines = text.split(" "), [""]
    for w in words:
        if len(lines[-1]) > 12 and rng.randint(3) == 0 and w:
            lines.append("  " + w)
        else:
            lines[-1] += ("" if not lines[-1] else " ") + w
    return "\n".join(lines)


def papers(rng, mon, where):
    tool, ids = mod("arxiv_to_aan"), mod("arxiv_author_ids")
    n = int(rng.choice([1, 3, 8]))
    meta, written, everyone = os.path.join(where, "meta.txt"), [], set()
    with open(meta, "w") as f:
        for _ in range(n):
            year, number = int(rng.choice([1992, 1996, 1999, 2000, 2003])), int(rng.randint(1001, 100000 - 1))
            ident = "%02d%05d" % (year % 100, number)
            title = " ".join(str(w) for w in rng.choice(["On", "the", "theory:", "{SU(2)}", "strings", "and", "branes", "in", "AdS", "(a survey)", "band"], int(rng.randint(1, 14))))
            people = [person(rng) for _ in range(int(rng.choice([1, 2, 3, 6])))]
            names = [p[0] for p in people]
            style = str(rng.choice(["and", "comma", "serial", "mixed", "affiliations"]))
            if style == "affiliations":
                listed = " and ".join(a + str(rng.choice([" (Inst. A, B and C)", " (1)", " (MIT (CTP), Boston)"])) for a in names)
            elif style == "and" or len(names) == 1:
                listed = " and ".join(names)
            elif style == "comma":
                listed = ", ".join(names)
            elif style == "serial":
                listed = ", ".join(names[:-1]) + ", and " + names[-1]
            else:
                listed = ", ".join(names[:-1]) + " and " + names[-1]
            venue = str(rng.choice(["", "Phys.Rev. D55 (1997) 7749", "Nucl.Phys. B460 (1996)"]))
            fields = ["Title: " + wrap(rng, title), str(rng.choice(["Author: ", "Authors: "])) + wrap(rng, listed), "Comments: 12 pages: LaTeX,\n  with figures", "Date: Mon, 8 Jan 1996 12:00:00 GMT (5kb)"]
            if venue:
                fields.append("Journal-ref: " + venue)
            fields = [fields[k] for k in rng.permutation(len(fields))]
            body = "-" * 78 + "\n\\\\\nPaper: hep-th/%s\nFrom: someone@somewhere\n%s\n\\\\\n  The abstract: it has Title: Wrong\nAuthor: Wrong\n\\\\\n" % (ident, "\n".join(fields))
            if rng.randint(2):
                body = body.replace("\nFrom:", "\n\nFrom:")
            path = os.path.join(where, ident + ".abs")
            with open(path, "w") as g:
                g.write(body)
            with quiet():
                paper = tool.read_paper_metadata(path)
            mon.count("papers")
            about = dict(text=body)
            mon.expect((paper.arxiv_id, paper.year) == (int(ident), year), "papers:id", "the number or year is not the paper's", got=(paper.arxiv_id, paper.year), want=(ident, year))
            mon.expect(paper.title.split() == title.split(), "papers:title", "the title is not the paper's", got=paper.title, want=title)
            mon.expect([a.split() for a in paper.authors] == [a.split() for a in names], "papers:authors", "the authors are not the paper's", got=paper.authors, want=names)
            mon.expect(paper.venue == (venue.split(" ")[0] if venue else None), "papers:venue", "the venue is not the paper's", got=paper.venue, want=venue)
            out = io.StringIO()
            tool.write_paper_metadata(out, paper)
            if rng.randint(2):
                one = os.path.join(where, "one.txt")
                with quiet():
                    tool.run([path, one])
                mon.expect(open(one).read() == out.getvalue(), "papers:run", "the record written for a file differs from the one of its data")
            got = dict(l.split("=", 1) for l in out.getvalue().splitlines() if l)
            acl = [p[1] for p in people]
            brace = str.maketrans("{}", "()")
            want = {"id": "{%d}" % int(ident), "title": "{%s}" % " ".join(title.translate(brace).split()), "author": "{%s}" % "; ".join(acl), "year": "{%d}" % year}
            if venue:
                want["venue"] = "{%s}" % venue.split(" ")[0]
            mon.expect({k: " ".join(v.split()) for k, v in got.items()} == want, "papers:record", "the record written is not the paper's", got=got, want=want)
            mon.expect(out.getvalue().endswith("}\n\n"), "papers:end", "a record does not end with a blank line")
            f.write(out.getvalue())
            everyone |= set(acl)
            mon.seen("paper", style, len(names), bool(venue), sorted(a for a in names)[0], ident)
    listing = os.path.join(where, "ids.txt")
    with quiet():
        ids.run(meta, listing)
    lines = open(listing).read().splitlines()
    mon.expect([l.split("\t") for l in lines] == [[str(k + 1), a] for k, a in enumerate(sorted(everyone))], "papers:ids", "not every author has a number of their own", got=lines[:6], want=sorted(everyone)[:6])


# --- reports on cross validations

def reports(rng, mon, where):
    prog, tool = program(), mod("report_generator")
    model = str(rng.choice(["ctm_bohning", "ctm_bouchard", "ctm", "stm_yv_bohning", "stm_yv_bouchard", "stm_yv"]))
    ctm = model.startswith("ctm")
    bounds = [b for b in ("bouchard", "bohning") if model.endswith(b)] or ["bouchard", "bohning"]
    topics = sorted({int(k) for k in rng.choice([1, 2, 5, 10, 15, 25, 50, 100], 3)})
    latent = sorted({int(k) for k in rng.choice([1, 5, 10, 50], 2)})
    raw, dest = os.path.join(where, "raw"), os.path.join(where, "reports")
    os.mkdir(raw), os.mkdir(dest)
    files = {}
    for b in ("bouchard", "bohning"):
        for family in ("ctm", "stm-yv"):
            for K in sorted(set(topics + [1, 5, 50, 500])):
                for P in ([0, None] if family == "ctm" else sorted(set(latent + [1, 5]))):
                    if rng.randint(3) == 0:
                        continue
                    if family == "ctm" and P is None and rng.randint(2):
                        continue
                    folds = int(rng.choice([1, 5, 12]))
                    for fold in range(folds):
                        path = prog.newModelFile(family + "/" + b, K, P, fold, raw)
                        with open(path, "w") as f:
                            f.write("x")
                        files.setdefault((family, b, K, P if family != "ctm" else 0), set()).add(os.path.basename(path))
    before = sorted(os.listdir(raw))
    nips = not ctm and bool(rng.randint(2))
    args = ["-m", model, "-k", ",".join(str(k) for k in topics), "-o", dest, "-i", raw] + ([] if ctm else ["-q", ",".join(str(p) for p in latent)]) + (["-d", "nips"] if nips else [])
    with quiet(), contextlib.redirect_stderr(io.StringIO()):
        tool.run(args)
    mon.expect(sorted(os.listdir(raw)) == before, "reports:input", "the directory of models was changed")
    want = set()
    for b in bounds:
        for K in topics:
            for P in ([0] if ctm else latent):
                name = "ctm_%s_k_%d.ipynb" % (b, K) if ctm else "stm_yv_%s_k_%d_p_%d.ipynb" % (b, K, P)
                mine = files.get(("ctm" if ctm else "stm-yv", b, K, P), set())
                path = os.path.join(dest, name)
                mon.expect(os.path.exists(path) == bool(mine), "reports:written", "there is no report though there are models, or the other way round", report=name, files=len(mine))
                if not mine or not os.path.exists(path):
                    continue
                want.add(name)
                mon.count("reports")
                text = open(path).read()
                try:
                    code = "\n".join("".join(c.get("input", [])) for s in json.loads(text)["worksheets"] for c in s["cells"])
                except ValueError:
                    mon.expect(False, "reports:notebook", "a report is not a notebook", report=name)
                    continue
                listed = re.findall(r"outputPathPrefix \+ '([^']*)'", code)
                mon.expect(sorted(listed) == sorted(mine), "reports:files", "a report does not list the files of its model and no others, once each", report=name, got=sorted(listed)[:4], want=sorted(mine)[:4])
                prefix = re.search(r"outputPathPrefix = '([^']*)'", code)
                mon.expect(prefix and all(os.path.exists(prefix.group(1) + f) for f in listed), "reports:paths", "a report names files which are not there", report=name)
                impl = {"bouchard": "", "bohning": "_bohning"}[b]
                mon.expect("from model.%s import" % (("ctm" if ctm else "stm_yv") + impl) in code, "reports:implementation", "a report uses the implementation of another model", report=name)
                mon.expect("with the %s Bound" % b.capitalize() in text, "reports:title", "a report has the title of another", report=name)
                if not ctm:
                    mon.expect(bool(re.search(r'dataPathPrefix = "[^"]*NIPS', code)) == nips, "reports:dataset", "a report reads the data of another collection", report=name)
    mon.expect({f for f in os.listdir(dest) if f.endswith(".ipynb")} == want, "reports:extra", "a report was written which was not asked for")
    mon.seen("reports", model, tuple(topics), tuple(latent), nips)
