"""What must not be seen in a history. Each returns a message, or None."""

def committed(ev):
    """Records of committed transactions, in log order."""
    ok = {e["x"] for e in ev if e["ev"] == "end" and e["ok"] == 1}
    return [e for e in ev if e["ev"] == "app" and e["x"] in ok]

def handles(ev):
    return {e["h"]: e for e in ev if e["ev"] == "handle"}

def crash(ev, s, verdict):
    if verdict != "ok":
        return "the process ended with: " + verdict

def once(ev, s, verdict):
    """The records of an event are committed by one attempt, and all of them."""
    hs, seen = handles(ev), {}
    want = {}
    for e in ev:
        if e["ev"] == "fwd":
            want.setdefault(e["h"], set()).add(e["i"])
    got = {}
    for a in committed(ev):
        if a["c"] in ("out", "chg") and a["h"] in hs:
            got.setdefault(a["h"], set()).add(a["i"])
    for h, g in got.items():
        k = (hs[h]["p"], hs[h]["o"])
        if k in seen:
            return "event %s was committed twice" % (k,)
        seen[k] = h
        if g != want[h]:
            return "event %s was committed in part" % (k,)

def complete(ev, s, verdict):
    """Every record is processed in the end, by one attempt."""
    r = once(ev, s, verdict)
    if r:
        return r
    if verdict != "ok":
        return "the process ended with: " + verdict
    prog = {}
    for a in committed(ev):
        if a["c"] == "cl":
            prog[a["sp"]] = max(prog.get(a["sp"], 0), a["next"])
    for e in ev:
        if e["ev"] == "in" and e["o"] >= prog.get(e["p"], 0):
            return "record %d of partition %d was never committed" % (e["o"], e["p"])

def skipped(ev, s, verdict):
    """What lies before the committed progress was processed and its records are committed."""
    hs, want, got, prog = handles(ev), {}, {}, {}
    for e in ev:
        if e["ev"] == "fwd":
            want.setdefault(e["h"], set()).add(e["i"])
    for a in committed(ev):
        if a["c"] == "cl":
            prog[a["sp"]] = max(prog.get(a["sp"], 0), a["next"])
        elif a["h"] in hs:
            got.setdefault(a["h"], set()).add(a["i"])
    good = {(hs[h]["p"], hs[h]["o"]) for h in hs if want.get(h, set()) == got.get(h, set())}
    for e in ev:
        if e["ev"] == "in" and e["o"] < prog.get(e["p"], 0) and (e["p"], e["o"]) not in good:
            return "progress of partition %d is past record %d, whose output was never committed" % (e["p"], e["o"])

def early(ev, s, verdict):
    """Progress is not recorded past an event which is not complete."""
    hs, done, open_ = handles(ev), set(), {}
    for e in ev:
        if e["ev"] == "handle":
            open_[(e["p"], e["o"], e["m"])] = e["h"]
        elif e["ev"] == "exit" and e["done"] == 1:
            done.add(e["h"])
        elif e["ev"] == "end" and e["ok"] == 1:
            for a in ev:
                if a["ev"] == "app" and a["x"] == e["x"] and a["c"] == "cl":
                    for (p, o, m), h in open_.items():
                        if p == a["sp"] and o < a["next"] and m == a["tag"] and h not in done:
                            return "progress %d of partition %d was committed although event %d was not complete" % (a["next"], p, o)

def order(ev, s, verdict):
    """Records of one source partition reach the log in the order they were forwarded in (unless their events are in the other order)."""
    hs, seen = handles(ev), {}
    pos = {(e["h"], e["i"]): n for n, e in enumerate(ev) if e["ev"] == "fwd"}
    for a in committed(ev):
        if a["c"] in ("out", "chg") and a["h"] in hs and (a["h"], a["i"]) in pos:
            e = hs[a["h"]]
            me = (pos[(a["h"], a["i"])], e["o"], e["m"])
            k = (a["c"], a["dp"], e["p"])
            for b in seen.get(k, []):
                if b[0] > me[0] and b[1] >= me[1] and b[2] == me[2]:
                    return "record %d of event %d of partition %d comes after one of event %d" % (a["i"], me[1], e["p"], b[1])
            seen.setdefault(k, []).append(me)

def balanced(ev, s, verdict):
    """In the end the partitions are spread evenly over the members."""
    plan = [e for e in ev if e["ev"] == "plan"]
    if plan and ev[-1]["ev"] == "quiet":
        n = [len(x) for x in plan[-1]["plan"].values()]
        if max(n) - min(n) > 1:
            return "the last plan of the group is %s" % plan[-1]["plan"]

def sched_order(ev, s, verdict):
    """Jobs of one key run one after the other, in the order they were scheduled in."""
    if verdict != "ok":
        return "the process ended with: " + verdict
    call, ret, key, run, active = {}, {}, {}, [], {}
    for n, e in enumerate(ev):
        if e["ev"] == "sched":
            call[e["id"]], key[e["id"]] = n, e["k"]
        elif e["ev"] == "schedret":
            ret[e["id"]] = n
        elif e["ev"] == "run":
            if active.get(e["k"]):
                return "two jobs of key %s run at once" % e["k"]
            active[e["k"]] = True
            for b in run:
                if key[b] == key[e["id"]] and ret.get(e["id"], 1 << 60) < call[b]:
                    return "job %s of key %s runs after job %s" % (e["id"], e["k"], b)
            run.append(e["id"])
        elif e["ev"] == "ran":
            active[e["k"]] = False

def batch_order(ev, s, verdict):
    """Items of one key are executed one batch after the other, in the order they were added in; everything is completed."""
    if verdict != "ok":
        return "the process ended with: " + verdict
    call, ret, done, active, cbs = {}, {}, [], {}, []
    for n, e in enumerate(ev):
        if e["ev"] == "add":
            call[e["id"]] = n
        elif e["ev"] == "addret":
            ret[e["id"]] = n
        elif e["ev"] == "exec":
            ks = {i[2] for i in e["items"]}
            for x in active.values():
                if x & ks:
                    return "two executions with key %s run at once" % sorted(x & ks)
            active[e["x"]] = ks
            if len(e["items"]) > s["Max"] > 0:
                return "an execution has %d items" % len(e["items"])
            for i in e["items"]:
                for b in done:
                    if b[2] == i[2] and ret.get(i[0], 1 << 60) < call[b[0]]:
                        return "item %s is executed after %s" % (i, b)
                done.append(i)
        elif e["ev"] == "execd":
            active.pop(e["x"])
    ends = {e["id"] for e in ev if e["ev"] == "state"}
    for b in call:
        if b not in ends:
            return "batch %s is never completed" % b

def plan_unique(ev, s, verdict):
    """A plan gives no partition to two members, and moves no partition before its owner gives it up and its receiver is ready."""
    own, ready = {}, {}
    for e in ev:
        if e["ev"] == "reb":
            own = {p: m["m"] for m in e["members"] for p in m["own"]}
            ready = {p: m["m"] for m in e["members"] if m["st"] == 0 for p in m["ready"]}
            active = [m["m"] for m in e["members"] if m["st"] == 0]
        elif e["ev"] == "plan" and e["arb"] == 0:
            got = {}
            for m in e["plan"]:
                for p in m["ps"]:
                    if p in got:
                        return "a plan gives partition %d to %s and %s" % (p, got[p], m["m"])
                    got[p] = m["m"]
                    if p in own and own[p] != m["m"]:
                        return "a plan gives partition %d of %s to %s" % (p, own[p], m["m"])
            for p in own:
                if p not in got and active and p not in ready:
                    return "a plan takes partition %d from %s though nobody is ready for it" % (p, own[p])

def serial(ev, s, verdict):
    """Code for one partition does not run twice at the same time."""
    busy = {}
    for e in ev:
        k = (e.get("m"), e.get("p"))
        if e["ev"] in ("handle", "fin"):
            if busy.get(k):
                return "event %s of partition %s runs into event %s" % (e["h"], e["p"], busy[k])
            busy[k] = e["h"]
        elif e["ev"] == "exit":
            busy[k] = None

def heap(ev, s, verdict):
    """Min, Max, PopMin, PopMax, Remove against a plain map."""
    if verdict != "ok":
        return "the process ended with: " + verdict
    pr = {}
    for e in ev:
        if e["ev"] == "new":
            pr = dict(enumerate(e["prs"]))
        elif e["ev"] in ("push", "update"):
            pr[e["id"]] = e["pr"]
        elif e["ev"] in ("min", "popmin", "max", "popmax"):
            w = (min if "min" in e["ev"] else max)(pr.values()) if pr else None
            if pr and (e["id"] not in pr or pr[e["id"]] != w):
                return "%s gives %s, not one with priority %s" % (e["ev"], e["id"], w)
            if e["ev"].startswith("pop"):
                pr.pop(e["id"], None)
        elif e["ev"] == "remove":
            pr.pop(e["id"], None)
        elif e["ev"] == "len" and e["n"] != len(pr):
            return "Len is %d, not %d" % (e["n"], len(pr))

def golden(ev, s, verdict):
    """A sequential, deterministic scenario: the history is the expected one."""
    import json, os
    if verdict != "ok":
        return "the process ended with: " + verdict
    if os.environ.get("DEMO_RECORD"):
        return None
    want = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "expect.json")))[s["ID"]]
    got = [{k: v for k, v in e.items() if k not in ("t", "l")} for e in ev]
    for n, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return "step %d is %s, not %s" % (n, json.dumps(a)[:150], json.dumps(b)[:150])
    if len(got) != len(want):
        return "the history has %d steps, not %d" % (len(got), len(want))

def goffset(ev, s, verdict):
    """The group offset, if it is kept, never runs ahead of the committed progress."""
    ok, prog = set(), {}
    apps = {}
    for e in ev:
        if e["ev"] == "app" and e["c"] == "cl":
            apps.setdefault(e["x"], []).append(e)
        elif e["ev"] == "end" and e["ok"] == 1:
            for a in apps.get(e["x"], []):
                prog[a["sp"]] = max(prog.get(a["sp"], 0), a["next"])
        elif e["ev"] == "groupcommit" and e["o"] > prog.get(e["p"], 0):
            return "the group offset of partition %d is %d, the committed progress %d" % (e["p"], e["o"], prog.get(e["p"], 0))

def metrics(ev, s, verdict):
    """Every committed transaction is reported with its size."""
    apps = {}
    for e in ev:
        if e["ev"] == "app":
            apps[e["x"]] = apps.get(e["x"], 0) + e["sz"]
        elif e["ev"] == "end":
            apps.setdefault(e["x"], 0)
    sizes = {}
    for e in ev:
        if e["ev"] == "end" and e["ok"] == 1:
            sizes.setdefault(e["tag"], []).append(apps[e["x"]])
    for m in {e.get("m") for e in ev if e["ev"] == "metric"}:
        got = sorted(e["bytes"] for e in ev if e["ev"] == "metric" and e["m"] == m and e["op"] == "TxnCommit")
        if sorted(sizes.get(m, [])) != got:
            return "member %s reports transactions of %s bytes, not %s" % (m, got, sorted(sizes.get(m, [])))

def owned(ev, s, verdict):
    """User code for a partition runs only between its activation and its revocation, and not after the member is done."""
    st, done = {}, set()
    for e in ev:
        k = (e.get("m"), e.get("p"))
        if e["ev"] == "activated":
            st[k] = "on"
        elif e["ev"] == "revoked":
            st[k] = "off"
        elif e["ev"] == "esdone":
            done.add(e["m"])
        elif e["ev"] in ("handle", "fin", "ij") and (st.get(k) != "on" or e["m"] in done):
            return "%s runs on partition %s of %s, which is %s" % (e["ev"], e["p"], e["m"], st.get(k))
        elif e["ev"] in ("assigned", "activated", "willrevoke", "revoked") and e["m"] in done:
            return "%s is called after Done()" % e["ev"]

def takeover(ev, s, verdict):
    """A partition starts at its first uncommitted event and goes on in order."""
    apps, prog, ins, last = {}, {}, {}, {}
    for e in ev:
        if e["ev"] == "in":
            ins.setdefault(e["p"], []).append(e["o"])
        elif e["ev"] == "app" and e["c"] == "cl":
            apps.setdefault(e["x"], []).append(e)
        elif e["ev"] == "end" and e["ok"] == 1:
            for a in apps.get(e["x"], []):
                prog[a["sp"]] = max(prog.get(a["sp"], 0), a["next"])
        elif e["ev"] == "activated":
            last[(e["m"], e["p"])] = None
        elif e["ev"] == "handle":
            k = (e["m"], e["p"])
            frm = prog.get(e["p"], 0) if last.get(k) is None else last[k] + 1
            want = min(o for o in ins[e["p"]] if o >= frm) if any(o >= frm for o in ins[e["p"]]) else None
            if e["o"] != want:
                return "partition %d of %s handles record %d, not %s" % (e["p"], e["m"], e["o"], want)
            last[k] = e["o"]

def jitter(ev, s, verdict):
    """A scheduled interjection runs every Every +- Jitter milliseconds when nothing else is going on."""
    last = {}
    for e in ev:
        if e["ev"] == "ij" and e["kind"] == "sched":
            k = (e["m"], e["p"], e["id"])
            c = s["Interj"][e["id"]]
            if k in last and not c["Async"] and not c["Every"] - c["Jitter"] - 12 <= e["t"] - last[k] <= c["Every"] + c["Jitter"] + 12:
                return "an interjection runs %d ms after the last" % (e["t"] - last[k])
            last[k] = e["t"]

def kinds(ev, s, verdict):
    """A record goes to the processor of its type, else to the default one."""
    ty = {(e["p"], e["o"]): e["ty"] for e in ev if e["ev"] == "in"}
    known = {e["k"] for e in ev if e["ev"] == "handle"}
    for e in ev:
        if e["ev"] == "handle":
            t = ty[(e["p"], e["o"])]
            if e["k"] != "def" and not t.startswith(e["k"]):
                return "record %d of type %r went to processor %s" % (e["o"], t, e["k"])

def batches(ev, s, verdict):
    """A batch of records calls back once, with every record and the outcome of each."""
    if verdict != "ok":
        return "the process ended with: " + verdict
    sent, back, app = {}, {}, {}
    for e in ev:
        if e["ev"] == "bsend":
            sent[e["b"]] = e
        elif e["ev"] == "app":
            app[e["id"]] = e
        elif e["ev"] == "bcb":
            if e["b"] in back:
                return "batch %s calls back twice" % e["b"]
            back[e["b"]] = e
            for i, err in zip(e["ids"], e["errs"]):
                if not err and i not in app:
                    return "record %s of batch %s is reported as sent but was not" % (i, e["b"])
    for b, e in sent.items():
        if e["cb"] and b not in back:
            return "batch %s never calls back" % b

def changelog(ev, s, verdict):
    """A consumer of a change log which is never paused or stopped gets every committed record, in order."""
    if verdict != "ok":
        return "the process ended with: " + verdict
    if any(e["ev"] in ("pausing", "stop", "resuming") for e in ev) or not any(e["ev"] == "start" for e in ev):
        return None
    open_, want, got = {}, [], {}
    for e in ev:
        if e["ev"] == "append":
            (open_.setdefault(e["x"], []) if e["x"] else want).append((e["p"], e["o"]))
        elif e["ev"] == "end":
            l = open_.pop(e["x"], [])
            if e["commit"]:
                want += l
        elif e["ev"] == "recv":
            if got.get(e["p"]) and got[e["p"]][-1] >= e["o"]:
                return "record %d of partition %d comes after record %d" % (e["o"], e["p"], got[e["p"]][-1])
            got.setdefault(e["p"], []).append(e["o"])
    for p, o in want:
        if o not in got.get(p, []):
            return "record %d of partition %d is never received" % (o, p)

def records(ev, s, verdict):
    """What arrives, and what a conversion gives, has the key, the value and the headers which were built."""
    if verdict != "ok":
        return "the process ended with: " + verdict
    def same(c):
        return (c["k"], c["v"], tuple(tuple(x) for x in c["h"]))
    built, pend = {}, []
    for e in ev:
        if e["ev"] == "rec":
            k = v = ty = ""
            h = []
            for o in e["ops"]:
                if o["Op"] in ("wk", "wks", "kw", "k", "ks"):
                    k += o["A"] + o["B"]
                elif o["Op"] in ("wv", "wvs", "vw", "v"):
                    v += o["A"] + o["B"]
                elif o["Op"] == "h":
                    h.append((o["A"], o["B"], 0))
                elif o["Op"] == "hnil":
                    h.append((o["A"], "", 1))
                elif o["Op"] == "type":
                    ty = o["A"]
            if ty:
                h.append(("__grt__", ty, 0))
            built[e["id"]] = (k, v, tuple(h))
            if e["via"] != "conv":
                pend.append(built[e["id"]])
        elif e["ev"] == "conv" and same(e) != built[e["id"]]:
            return "record %.100s is converted to %.100s" % (built[e["id"]], same(e))
        elif e["ev"] == "arr":
            if same(e) not in pend:
                return "%.100s arrives, which was not built" % (same(e),)
            pend.remove(same(e))
    if pend:
        return "%.100s never arrives" % (pend[0],)

def restored(ev, s, verdict):
    """A store is activated with the committed changes of its partition."""
    open_, content = {}, {}
    for e in ev:
        if e["ev"] == "app" and e["c"] == "chg":
            open_.setdefault(e["x"], []).append((e["dp"], e["kk"], e["v"]))
        elif e["ev"] == "end":
            for p, k, v in open_.pop(e["x"], []):
                if e["ok"] == 1:
                    content.setdefault(p, {})[k] = v
        elif e["ev"] == "activated" and e.get("st"):
            want = [max(0, content.get(e["p"], {}).get(k, 0)) for k in range(len(e["st"]))]
            if e["st"] != want:
                return "partition %d of %s is activated with %s, not %s" % (e["p"], e["m"], e["st"], want)

def kept(ev, s, verdict):
    """What a consumer which never fails or stops has forwarded is committed in the end."""
    if verdict != "ok" or any(e["ev"] in ("stop", "stopnow", "left", "srevoked", "fault") for e in ev):
        return None
    got = {(a["h"], a["i"]) for a in committed(ev)}
    for e in ev:
        if e["ev"] == "fwd" and e["t"] < ev[-1]["t"] - 2000 and (e["h"], e["i"]) not in got:
            return "record %d of handler call %d is not committed" % (e["i"], e["h"])

def leaves(ev, s, verdict):
    """A consumer whose transaction failed leaves the group at once."""
    failed = {}
    for e in ev:
        if e["ev"] == "txnerr":
            failed.setdefault(e["m"], e["t"])
        elif e["ev"] == "left" and e["tag"] in failed and e["t"] > failed[e["tag"]] + 1000:
            return "%s leaves %d ms after its transaction failed" % (e["tag"], e["t"] - failed[e["tag"]])
