"""P21: parameter sets with history."""
import copy
import pickle

from lmfit import Parameter, Parameters

from elli.fitting import ParamsHist
from rec import call, main, q

EXPR = {"a": "2*a", "": ""}


def par(p):
    of = ""
    if p.expr:
        of = p.expr.replace(" ", "").replace("2*", "")
    return {"name": p.name, "val": q(float(p.value)), "min": q(float(p.min)), "max": q(float(p.max)), "vary": bool(p.vary), "of": of}


def listed(ps):
    return [dict(par(p), name=k) for k, p in ps.items()]


class Session:
    def __init__(self, rng):
        self.rng = rng
        self.p = ParamsHist()
        self.ev = []
        self.given, self.popped, self.held = None, None, []
        self.scale = rng.choice([1.0, 0.1, 1e-9, 1234.5678])
        self.log({"ev": "new"}, "")

    def log(self, e, err):
        e.update(err=err, cur=listed(self.p), past=[listed(h) for h in self.p.history], max=int(self.p.max_history_len), len=int(self.p.history_len))
        self.ev.append(e)

    def num(self, v):
        return v if isinstance(v, str) else float(v) * self.scale

    def bound(self, b):
        return float(b) if "inf" in b else float(b) * self.scale

    def spec(self, n, v, b, y, of=""):
        return {"name": n, "val": q(self.num(v)), "min": q(self.bound(b[0])), "max": q(self.bound(b[1])), "vary": y, "of": of}

    def step(self, s):
        p, rng = self.p, self.rng
        k = s[0]
        if k in ("value", "update", "vary", "bounds") and s[1] not in p:
            return
        if p and rng.random() < 0.3:
            self.held.append(rng.choice(list(p.values())))
        if k in ("add", "tadd"):
            _, n, v, b, y = s
            f = p.add if k == "add" else p.tracked_add
            kw = dict(value=self.num(v), vary=y, min=self.bound(b[0]), max=self.bound(b[1]))
            if rng.random() < 0.3:
                obj = Parameter(n, **kw)
                self.held.append(obj)
                _, err = call(f, obj)
            elif rng.random() < 0.5:
                _, err = call(f, n, kw["value"], y, kw["min"], kw["max"])
            else:
                _, err = call(f, n, **kw)
            self.log({"ev": k, "p": self.spec(n, v, b, y)}, err)
        elif k in ("tie", "ttie"):
            f = p.add if k == "tie" else p.tracked_add
            _, err = call(f, s[1], expr="2*" + s[2])
            self.log({"ev": k[:-3] + "add", "p": self.spec(s[1], 0, ("-inf", "inf"), False, s[2])}, err)
        elif k == "value":
            v = self.num(s[2])
            if rng.random() < 0.5:
                p[s[1]].value = v
                err = ""
            else:
                _, err = call(p[s[1]].set, value=v)
            self.log({"ev": k, "n": s[1], "v": q(v)}, err)
        elif k == "update":
            _, err = call(p.update_value, s[1], self.num(s[2]))
            self.log({"ev": k, "n": s[1], "v": q(self.num(s[2]))}, err)
        elif k == "vary":
            p[s[1]].vary = s[2]
            self.log({"ev": k, "n": s[1], "b": s[2]}, "")
        elif k == "bounds":
            lo, hi = map(self.bound, s[2])
            if rng.random() < 0.5:
                p[s[1]].set(min=lo, max=hi)
            else:
                p[s[1]].min, p[s[1]].max = lo, hi
            self.log({"ev": k, "n": s[1], "lo": q(lo), "hi": q(hi)}, "")
        elif k == "params":
            n, v, y, more = s[1]
            g = rng.choice([Parameters, ParamsHist])()
            g.add(n, value=self.num(v), vary=y)
            if more:
                g.add("f", value=self.num(v + 1), vary=True, min=0)
            want = listed(g)
            _, err = call(p.update_params, g)
            self.given = g
            self.log({"ev": k, "q": want}, err)
        elif k == "commit":
            _, err = call(p.commit)
            self.log({"ev": k}, err)
        elif k == "clear":
            _, err = call(p.clear_history)
            self.log({"ev": k}, err)
        elif k == "revert":
            _, err = call(p.revert, s[1])
            self.log({"ev": k, "k": s[1]}, err)
        elif k == "max":
            _, err = call(setattr, p, "max_history_len", s[1])
            self.log({"ev": k, "m": s[1]}, err)
        elif k == "pop":
            got, err = call(p.pop)
            self.popped = got
            self.log({"ev": k, "none": got is None, "got": [] if got is None else listed(got)}, err)
        elif k == "spoil":
            w = s[1]
            if w == "given" and self.given is not None:
                self.smash(self.given)
            elif w == "popped" and self.popped is not None:
                self.smash(self.popped)
            elif w == "copy" and p:
                c = rng.choice([lambda: p.copy(), lambda: copy.deepcopy(p), lambda: copy.copy(p), lambda: pickle.loads(pickle.dumps(p))])()
                self.smash(c)
                c.commit()
            elif self.held and not self.tied:  # lmfit lets a replaced parameter object write to the names tied parameters read
                w = "held"
                rng.choice(self.held).value = self.scale
            else:
                return
            self.log({"ev": "spoil", "what": w}, "")

    def smash(self, ps):
        for x in list(ps.values()):
            if not x.expr:
                x.set(value=-7.5 * self.scale, min=-50.0 * self.scale, max=80.0, vary=not x.vary)
        ps.add("zz", value=3.0)
        if self.rng.random() < 0.5:
            del ps[next(iter(ps))]

    def refused(self):
        p, rng = self.p, self.rng
        k = rng.randrange(7)
        silent, tracked = False, False
        if k == 0:
            what, (_, err) = "update_value unknown", call(p.update_value, "nope", 1.0)
            tracked = True
        elif k == 1:
            what, (_, err) = "tracked_add invalid name", call(p.tracked_add, "1 x", 1.0)
            tracked = True
        elif k == 2:
            what, (_, err) = "update_params of a dict", call(p.update_params, {"a": 1})
            tracked = True
        elif k in (3, 4):
            v = rng.choice([0, -3, 2.5, "4", None])
            what, (_, err) = f"maximum {v}", call(setattr, p, "max_history_len", v)
        else:
            k = rng.choice([len(p.history), len(p.history) + 3, -len(p.history) - 1])
            if not p.history:
                k = rng.choice([0, -1, 5])
            what, (_, err) = f"revert out of range {k}", call(p.revert, k)
            silent = True
        self.log({"ev": "refused", "what": what, "silent": silent, "tracked": tracked}, err)


def drive(a, rng, rec):
    for n, b in enumerate(a.beh):
        s = Session(rng)
        s.tied = any("tie" in x[0] for x in b)
        for step in b:
            if step[0] == "revert" and not -len(s.p.history) <= step[1] < len(s.p.history):
                continue
            s.step(step)
            if rng.random() < 0.08:
                s.refused()
        rec.case(f"history-{n}", s.ev)
    # long sessions: the default maximum
    for n in range(3 if a.thorough else 1):
        s = Session(rng)
        s.scale = 1.0
        s.step(["add", "a", 1, ["-inf", "inf"], True])
        for i in range(rng.randrange(52, 57)):
            s.step([rng.choice(["update", "update", "commit"]), "a", i])
        for k in (0, -1, 7):
            s.step(["revert", k])
        for _ in range(rng.randrange(3, 52)):
            s.step(["pop"])
        rec.case(f"long-{n}", s.ev)


if __name__ == "__main__":
    main(drive)
