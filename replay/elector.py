"""Leader election and its lock: C23, C24."""
import asyncio
import json

from lib import EPOCH, check, now, run, scenario, settle

EPS = 1e-6
KEY = "control-plane.alpha.kubernetes.io/leader"


def module():
    from aiok8s.leaderelection import leaderelection
    return leaderelection


class Refused(Exception):
    """The lock does not answer as wished."""


def api(status):
    from kubernetes_asyncio.client import exceptions
    return exceptions.ApiException(status=status)


def refusal(what):
    k = sum(map(ord, what)) + int(now() * 7)
    return [Refused(what), api(500), api(409), api(404), asyncio.TimeoutError(), OSError(what), api(403), api(201)][k % 8]


class Record:
    """The record all locks of one election share: raw text and a version, with everything that was ever written."""

    def __init__(self):
        self.raw, self.version = None, 0

    def put(self, rec):
        self.raw = json.dumps(rec)
        self.version += 1


class Lock:
    """One candidate's lock.  plan(op) gives what happens: (delay, "ok" | "fail" | "lost" | "hang")."""

    def __init__(self, shared, me, plan):
        self.shared, self._me, self.plan = shared, me, plan
        self.seen = None            # version of the last get, create or update
        self.log = []               # (what, began, ended, ok, record)
        self.first_seen = None      # (raw, when first seen without any other in between)
        self.hanging = 0

    def identity(self):
        return self._me

    def describe(self):
        return "ns/lock"

    async def _act(self, what, rec, do):
        e = [what, now(), None, None, rec]
        self.log.append(e)
        delay, how = self.plan(what)
        try:
            if how == "hang":
                self.hanging += 1
                await asyncio.Event().wait()
            if delay:
                await asyncio.sleep(delay)
            if how == "fail":
                raise refusal(what)
            out = do()
            if how == "lost":
                raise refusal(f"{what}: answer lost")
            e[3] = True
            return out
        except BaseException:
            e[3] = False
            raise
        finally:
            e[2] = now()

    async def get(self):
        def do():
            self.seen = self.shared.version
            raw = self.shared.raw
            rec = None if raw is None else (json.loads(raw) if raw else {})
            if self.first_seen is None or self.first_seen[0] != raw:
                self.first_seen = (raw, now())
            self.log[-1][4] = rec
            return (None, None) if raw is None else (rec, raw)
        return await self._act("get", None, do)

    async def create(self, rec):
        self.judge("create", rec)

        def do():
            if self.shared.raw is not None:
                raise api(409)
            self.shared.put(rec)
            self.seen = self.shared.version
        return await self._act("create", json.loads(json.dumps(rec)), do)

    async def update(self, rec):
        self.judge("update", rec)

        def do():
            if self.shared.raw is None or self.seen != self.shared.version:
                raise api(409)
            self.shared.put(rec)
            self.seen = self.shared.version
        return await self._act("update", json.loads(json.dumps(rec)), do)

    lease = 0

    def judge(self, what, rec):
        """A write: what it says about its holder, given what this candidate has seen."""
        gets = [e for e in self.log if e[0] == "get" and e[3]]
        check(gets or what == "update" and any(e[3] for e in self.log), f"{what} without having read the lock")
        last = gets[-1][4]
        holder = (last or {}).get("holderIdentity")
        mine = rec.get("holderIdentity")
        writes = [e for e in self.log if e[0] in ("create", "update") and e[3]]
        if mine is None or mine == "":
            return
        check(mine == self._me, f"writes {mine} as the holder, being {self._me}")
        if what == "create":
            check(last is None, "creates a lock that exists")
            check(rec["leaderTransitions"] == 0, lambda: f"creates the record with {rec['leaderTransitions']} transitions")
            check(rec["acquireTime"] == rec["renewTime"], "a new record was acquired when it was made")
        else:
            check(last is not None, "updates a lock that does not exist")
            if holder == self._me:
                check(rec["leaderTransitions"] == last["leaderTransitions"], lambda:
                      f"transitions {last['leaderTransitions']} became {rec['leaderTransitions']} with the same holder")
                check(rec["acquireTime"] == last["acquireTime"], "the acquire time changes while the holder stays")
            else:
                check(rec["leaderTransitions"] == last.get("leaderTransitions", 0) + 1, lambda:
                      f"transitions {last.get('leaderTransitions', 0)} became {rec['leaderTransitions']} with a new holder")
                check(rec["acquireTime"] == rec["renewTime"], "the acquire time of another holder is kept")
            if holder and holder != self._me:
                raw, since = self.first_seen
                check(now() - since >= self.lease - EPS, lambda:
                      f"takes the lock of {holder} {now() - since} s after it last saw it change (lease {self.lease})")
        check(rec["leaseDurationSeconds"] == int(self.lease), "another lease duration")
        check(gets[-1][1] - EPS <= rec["renewTime"] - EPOCH <= now() + EPS, "the renew time is not the time of this attempt")


class Candidate:
    """An elector with callbacks that record what they are told."""

    def __init__(self, rng, shared, me, plan, release, lease, deadline, retry):
        m = module()
        self.lock = Lock(shared, me, plan)
        self.lock.lease = lease
        self.deadline, self.retry, self.release = deadline, retry, release
        self.bad = []           # what its callbacks saw and should not have seen
        self.work = []          # [began, ended]
        self.stopped = []
        self.new = []
        self.me = me
        self.stubborn = rng.random() < 0.2
        self.finishes = rng.random() < 0.15
        self.shared = shared
        self.tells = rng.random() < 0.85
        cb = m.LeaderCallbacks(self.started, self.stop, self.leader if self.tells else None)
        self.e = m.LeaderElector(m.LeaderElectionConfig(
            lock=self.lock, callbacks=cb, name="x", lease_duration=lease, renew_deadline=deadline, retry_period=retry,
            release_on_cancel=release))

    async def started(self):
        w = [now(), None]
        self.work.append(w)
        if not any(e[3] and e[4].get("holderIdentity") == self.me for e in self.lock.log if e[0] != "get"):
            self.bad.append("leads without having written the lock")
        if self.stopped:
            self.bad.append("starts leading after it reported the end")
        try:
            if self.finishes:
                await asyncio.sleep(1)
                if self.stubborn:
                    raise ValueError("the work failed")
            else:
                await asyncio.Event().wait()
        finally:
            w[1] = now()

    async def stop(self):
        self.stopped.append(now())
        if self.stubborn:
            await asyncio.sleep(1)

    async def leader(self, who):
        self.new.append((now(), who))

    def ends(self):
        """When its leading must be over, if nothing more succeeds."""
        ok = [i for i, e in enumerate(self.lock.log) if e[0] in ("create", "update") and e[3] and e[4].get("holderIdentity")]
        if not ok:
            return None
        later = [e for e in self.lock.log[ok[-1] + 1:] if e[0] == "get"]
        return later[0][1] + self.deadline if later else None


def plan(rng, trouble):
    def p(what):
        d = rng.choice([0, 0, 0, 0.1, 0.5, 3])
        if trouble[0] == "none" or rng.random() < 0.75 and trouble[0] == "some":
            return d, "ok"
        return d, rng.choice(["fail", "fail", "lost", "hang"] if trouble[0] != "fail" else ["fail"])
    return p


def finish(c, t, cancelled_at):
    """What holds once run has ended."""
    check(not c.bad, lambda: c.bad[0])
    check(len(c.stopped) == 1, lambda: f"on_stopped_leading was called {len(c.stopped)} times")
    check(len(c.work) <= 1, "started leading more than once")
    for w in c.work:
        check(w[1] is not None, "the leader's work goes on after run ended")
    for a, b in zip(c.new, c.new[1:]):
        check(a[1] != b[1], lambda: f"reports {b[1]} twice in a row")
    if c.release and cancelled_at is not None and c.work:
        # it was the leader as far as it knew
        last = [e for e in c.lock.log if e[0] in ("create", "update")][-1]
        wrote = [e for e in c.lock.log if e[0] in ("create", "update") and e[3]]
        gets = [e for e in c.lock.log if e[0] == "get" and e[3]]
        newest = max([e for e in wrote + gets], key=c.lock.log.index)
        if (newest[4] or {}).get("holderIdentity") == c.me or newest is last and not newest[4].get("holderIdentity"):
            check(not last[4].get("holderIdentity"), "a leader that was cancelled did not give the lease up")
            if c.lock.seen == c.shared.version and last[3]:
                check(not json.loads(c.shared.raw).get("holderIdentity"), "the lease is still held")
    check(not [e for e in c.lock.log if e[0] in ("create", "update") and not e[4].get("holderIdentity")] or c.release and (
        c.work or True), "writes a record without holder without being asked to")
    if not c.release:
        check(all(e[4].get("holderIdentity") for e in c.lock.log if e[0] != "get"), "gives the lease up unasked")


@scenario("C23 C24", 3)
def elections(rng):
    """Several candidates, some that fail, hang or are cancelled."""
    async def go():
        shared = Record()
        lease, deadline, retry = rng.choice([(15, 10, 2), (15, 10, 2), (4.5, 3, 1)])
        troubles, cs = [], []
        for i in range(rng.choice([1, 1, 2, 3])):
            tr = [rng.choice(["none", "none", "some"])]
            troubles.append(tr)
            cs.append(Candidate(rng, shared, f"me{i}", plan(rng, tr), rng.random() < 0.5, lease, deadline, retry))
        if rng.random() < 0.2:
            shared.raw, shared.version = "", 1
        elif rng.random() < 0.3:
            shared.put({"holderIdentity": rng.choice(["me0", "other"]), "leaseDurationSeconds": int(lease), "renewTime": 1,
                        "acquireTime": 1, "leaderTransitions": rng.randrange(5)})
        tasks = []
        for c in cs:
            tasks.append(asyncio.ensure_future(c.e.run()))
            await asyncio.sleep(rng.choice([0, 0, 1, 5]))
        cancelled = {}
        foreign = rng.random() < 0.3
        for step in range(rng.randrange(4, 25)):
            await asyncio.sleep(rng.choice([0, 0.05, 0.5, 1, 2, 3, 7, 20]))
            await settle(rng.randrange(6))
            for c, t in zip(cs, tasks):
                if t.done():
                    if c not in cancelled:
                        check(t.exception() is None, lambda: f"run raised {t.exception()!r}")
                        check(c.work, "run ended by itself without ever leading")
                        finish(c, t, None)
                    continue
                working = [w for w in c.work if w[1] is None]
                if working and c.ends() is not None:
                    check(now() <= c.ends() + EPS, lambda: f"still leads {now() - c.ends()} s after the renew deadline")
                if c.work and not c.stopped and not c.lock.hanging and c not in cancelled and not any(e[2] is None for e in c.lock.log):
                    # leading: it renews
                    ok = [e for e in c.lock.log if e[0] in ("create", "update") and e[3]]
                    check(ok, "leads without having written the lock")
                    check(now() - ok[-1][2] <= retry + deadline + 1 + EPS, "a leader that does not renew")
                known = [e for e in c.lock.log if e[3] and e[4] is not None]
                if known and not c.work and c not in cancelled and c.tells and not any(e[2] in (now(), None) for e in c.lock.log):
                    told = c.new[-1][1] if c.new else None
                    check((told or None) == (known[-1][4].get("holderIdentity") or None), lambda:
                          f"the last leader reported is {told}, the last one seen is {known[-1][4].get('holderIdentity')}")
                if known and not any(e[2] == now() for e in c.lock.log):
                    holds = known[-1][4].get("holderIdentity") == c.me
                    check(c.e.is_leader() == holds, lambda: f"is_leader is {c.e.is_leader()} after {known[-1]}")
            k = rng.randrange(len(cs))
            r = rng.random()
            if r < 0.15:
                troubles[k][0] = rng.choice(["none", "some", "all", "fail"])
            elif r < 0.25 and not tasks[k].done() and cs[k] not in cancelled:
                tasks[k].cancel()
                cancelled[cs[k]] = now()
            elif r < 0.35 and foreign and shared.raw:
                rec = json.loads(shared.raw)
                who = rng.choice(["other", "other", "else", "me0"])
                skew = rng.choice([0, EPOCH, EPOCH - 100, EPOCH + 100])          # its clock is its own
                if rng.random() < 0.2:
                    shared.put({"leaderTransitions": rec.get("leaderTransitions", 0)})
                elif rec.get("holderIdentity") == who:
                    shared.put(dict(rec, renewTime=now() + skew))
                else:
                    shared.put({"holderIdentity": who, "leaseDurationSeconds": int(lease), "renewTime": now() + skew,
                                "acquireTime": now() + skew, "leaderTransitions": rec.get("leaderTransitions", 0) + 1})
            elif r < 0.4:
                for tr in troubles:
                    tr[0] = "none"
        for c, t in zip(cs, tasks):
            if not t.done():
                if rng.random() < 0.3:
                    for tr in troubles:
                        tr[0] = "none"
                hung = c.lock.hanging
                t.cancel()
                cancelled.setdefault(c, now())
                await asyncio.wait([t], timeout=deadline + 60)
                check(t.done(), "run does not end when it is cancelled")
            if c in cancelled:
                finish(c, t, cancelled[c])
    run(go, limit=1e6)


@scenario("C24", 2)
def deadlines(rng):
    """A leader whose renewals stop succeeding at some time, in any way."""
    async def go():
        shared = Record()
        lease, deadline, retry = rng.choice([(15, 10, 2), (15, 10, 2), (4.5, 3, 1)])
        how = rng.choice(["fail", "hang", "slow", "foreign", "mixed"])
        bad = [False]

        def p(what):
            if not bad[0]:
                return rng.choice([0, 0, 0.2]), "ok"
            if how == "mixed":
                return rng.choice([0, 0.3, 2.5]), rng.choice(["fail", "hang", "fail", "fail"])
            if how == "slow":
                return 1000, "ok"
            if how == "foreign":
                return 0, "ok"
            return 0, how
        c = Candidate(rng, shared, "me", p, rng.random() < 0.5, lease, deadline, retry)
        t = asyncio.ensure_future(c.e.run())
        await asyncio.sleep(rng.choice([1, 7, 20.5, 33]))
        await settle()
        check(len(c.work) == 1, "a free lock is not acquired")
        check(not c.tells or c.new and c.new[-1][1] == "me", "the new leader is not reported")
        bad[0] = True
        if how == "foreign":
            rec = json.loads(shared.raw)
            shared.put(dict(rec, holderIdentity="other", renewTime=now(), leaderTransitions=rec["leaderTransitions"] + 1))
            keep = rng.random() < 0.5
        for _ in range(200):
            await asyncio.sleep(0.25)
            if how == "foreign" and keep:
                rec = json.loads(shared.raw)
                shared.put(dict(rec, renewTime=now()))
            end = c.ends()
            if end is not None and now() > end + EPS:
                check(c.work[0][1] is not None and c.work[0][1] <= end + EPS, lambda:
                      f"{how}: the work goes on after the renew deadline ({now() - end} s later)")
        check(c.work[0][1] is not None or how == "foreign" and not keep, lambda: f"{how}: leads on for 50 s")
        await asyncio.wait([t], timeout=100)
        if how != "foreign" or keep:
            check(t.done(), lambda: f"{how}: run does not end")
        if t.done():
            check(t.exception() is None, lambda: f"run raised {t.exception()!r}")
            finish(c, t, None)
            if how == "foreign":
                check(not c.tells or c.new[-1][1] == "other", lambda: f"the new leader is not reported: {c.new}")
                check(json.loads(shared.raw).get("holderIdentity") == "other", "overwrites the record of another leader")
        else:
            t.cancel()
            await asyncio.wait([t], timeout=100)
    run(go, limit=1e6)


@scenario("C23", 1)
def another_leads(rng):
    """Somebody else keeps renewing, gives up or dies, in any way; nobody may take a lease that lives."""
    async def go():
        shared = Record()
        lease, deadline, retry = rng.choice([(15, 10, 2), (4.5, 3, 1)])
        slow = rng.random() < 0.3
        c = Candidate(rng, shared, "me", lambda w: (rng.choice([0, 0.5]), "ok" if not slow or rng.random() < 0.7 else "fail"),
                      False, lease, deadline, retry)
        skew = rng.choice([0, EPOCH, EPOCH - 100, EPOCH + 100])
        rec = {"holderIdentity": "other", "leaseDurationSeconds": int(lease), "renewTime": skew, "acquireTime": skew,
               "leaderTransitions": rng.randrange(4)}
        shared.put(rec)
        t = asyncio.ensure_future(c.e.run())
        for _ in range(rng.randrange(1, 30)):
            await asyncio.sleep(rng.choice([0.3, 1, 2, lease - 1.5, lease - 0.5]))
            check(not c.work, "leads although the holder renewed in time")
            if rng.random() < 0.1:
                shared.put({"leaderTransitions": rec["leaderTransitions"]})
                break
            if rng.random() < 0.05:
                rec["holderIdentity"] = "else"
                rec["leaderTransitions"] += 1
            rec["renewTime"] = skew + now()
            shared.put(dict(rec))
        await asyncio.sleep(lease + 3 * retry + 20)
        if not slow:
            check(c.work, "a free lease is not taken")
            mine = json.loads(shared.raw)
            check(mine["leaderTransitions"] == rec["leaderTransitions"] + 1, "transitions")
        t.cancel()
        await asyncio.wait([t], timeout=100)
    run(go, limit=1e6)


@scenario("C23 C24", 1)
def again(rng):
    """Run again, by the same elector or by one that starts anew under the same name."""
    async def go():
        shared = Record()
        lease, deadline, retry = rng.choice([(15, 10, 2), (4.5, 3, 1)])
        dead = [False]
        rel = rng.random() < 0.5

        def make():
            return Candidate(rng, shared, "me", lambda w: (rng.choice([0, 0.1]), "fail" if dead[0] else "ok"), rel,
                             lease, deadline, retry)
        c = make()
        acquired = None
        for n in range(rng.randrange(2, 4)):
            t = asyncio.ensure_future(c.e.run())
            await asyncio.sleep(rng.choice([0.5, 5, 30]))
            check(not t.done(), lambda: f"run {n} ended: {t}")
            check(len(c.work) == 1 and c.work[0][1] is None or c.finishes, lambda: f"run {n} does not lead")
            check(not c.stopped, "reports the end while leading")
            check(c.e.is_leader(), "does not know that it leads")
            rec = json.loads(shared.raw)
            check(rec["leaderTransitions"] == (n if rel else 0), lambda: f"{rec['leaderTransitions']} transitions in run {n}")
            if acquired is not None and not rel:
                check(rec["acquireTime"] == acquired, "the acquire time changes while the holder stays")
            acquired = rec["acquireTime"]
            if rng.random() < 0.3:
                dead[0] = True
                await asyncio.sleep(3 * deadline + 3 * retry)
                check(t.done(), "run does not end")
                dead[0] = False
                if rel:
                    shared.put({"leaderTransitions": rec["leaderTransitions"]})
            else:
                t.cancel()
                await asyncio.wait([t], timeout=100)
                check(t.done(), "run does not end when it is cancelled")
            check(len(c.stopped) == 1, lambda: f"on_stopped_leading was called {len(c.stopped)} times")
            check(c.work[0][1] is not None, "the leader's work goes on after run ended")
            if rng.random() < 0.5:
                c = make()
            else:
                c.work.clear()
                c.stopped.clear()
    run(go, limit=1e6)


@scenario("C24", 1)
def first_steps(rng):
    """Cancelled at any moment around the acquisition."""
    async def go():
        shared = Record()
        c = Candidate(rng, shared, "me", lambda w: (0, "ok"), rng.random() < 0.7, 15, 10, 2)
        t = asyncio.ensure_future(c.e.run())
        n = rng.randrange(0, 25)
        for _ in range(n):
            await asyncio.sleep(0)
        t.cancel()
        await asyncio.wait([t], timeout=100)
        check(t.done(), "run does not end when it is cancelled")
        if not n:
            return                    # it never began
        check(not c.bad, lambda: c.bad[0])
        check(len(c.stopped) == 1, lambda: f"on_stopped_leading was called {len(c.stopped)} times")
        for w in c.work:
            check(w[1] is not None, "the leader's work goes on after run ended")
        wrote = [e for e in c.lock.log if e[0] != "get" and e[3]]
        if c.release and wrote:
            check(not json.loads(shared.raw).get("holderIdentity"), f"the lease is still held (cancelled after {n} steps)")
        if not c.release and wrote:
            check(json.loads(shared.raw).get("holderIdentity") == "me", "the lease was given up unasked")
    run(go, limit=1e6)


class Server:
    """Config maps of a cluster, with resource versions."""

    def __init__(self, rng):
        self.maps, self.rv, self.rng, self.calls = {}, 0, rng, []
        self.fail = None

    def _maybe(self, what):
        from kubernetes_asyncio.client import exceptions
        self.calls.append(what)
        if self.fail is not None:
            raise exceptions.ApiException(status=self.fail)

    def _bump(self, cm):
        self.rv += 1
        cm.metadata.resource_version = str(self.rv)

    async def read_namespaced_config_map(self, name, namespace, **kw):
        import copy
        from kubernetes_asyncio.client import exceptions
        self._maybe("read")
        await asyncio.sleep(0)
        cm = self.maps.get((namespace, name))
        if cm is None:
            raise exceptions.ApiException(status=404)
        return copy.deepcopy(cm)

    async def create_namespaced_config_map(self, namespace, body, **kw):
        import copy
        from kubernetes_asyncio.client import exceptions
        self._maybe("create")
        await asyncio.sleep(0)
        k = (namespace, body.metadata.name)
        check(body.metadata.namespace in (None, namespace), "another namespace in the body")
        if k in self.maps:
            raise exceptions.ApiException(status=409)
        cm = copy.deepcopy(body)
        self._bump(cm)
        self.maps[k] = cm
        return copy.deepcopy(cm)

    async def replace_namespaced_config_map(self, name, namespace, body, **kw):
        import copy
        from kubernetes_asyncio.client import exceptions
        self._maybe("replace")
        await asyncio.sleep(0)
        k = (namespace, name)
        if k not in self.maps:
            raise exceptions.ApiException(status=404)
        check(body.metadata.name == name and body.metadata.namespace == namespace, "the body of another config map")
        check(body.metadata.resource_version, "replaces without saying which version")
        if body.metadata.resource_version != self.maps[k].metadata.resource_version:
            raise exceptions.ApiException(status=409)
        cm = copy.deepcopy(body)
        self._bump(cm)
        self.maps[k] = cm
        return copy.deepcopy(cm)


@scenario("C23", 1)
def config_map_lock(rng):
    """The lock keeps its record in an annotation; a write fails when somebody else wrote since it was last read or written."""
    from kubernetes_asyncio.client import exceptions, models
    from aiok8s.leaderelection import resourcelock

    async def go():
        srv = Server(rng)

        def new(me):
            conf = resourcelock.ResourceLockConfig(me)
            if rng.random() < 0.03:
                lk = resourcelock.new("ns", "lock", conf)
                lk.client = srv
                return lk
            return resourcelock.ConfigMapLock(models.V1ObjectMeta(namespace="ns", name="lock"), srv, conf)
        locks = [new(f"me{i}") for i in range(2)]
        seen = [None, None]           # resource version each knows
        k = ("ns", "lock")
        extra = {}
        if rng.random() < 0.4:
            ann = rng.choice([None, {}, {"other": "x"}, {KEY: json.dumps({"holderIdentity": "z", "leaderTransitions": 3})}])
            extra = {a: b for a, b in (ann or {}).items() if a != KEY}
            cm = models.V1ConfigMap(data={"a": "b"}, metadata=models.V1ObjectMeta(name="lock", namespace="ns", annotations=ann))
            srv._bump(cm)
            srv.maps[k] = cm
        had = k in srv.maps
        for n in range(rng.randrange(2, 14)):
            i = rng.randrange(2)
            lk = locks[i]
            check(lk.identity() == f"me{i}" and lk.describe() == "ns/lock", "another lock")
            srv.fail = rng.choice([None] * 6 + [500, 403, 409])
            rec = {"holderIdentity": f"me{i}", "leaderTransitions": n, "renewTime": 1.5 * n, "acquireTime": 2}
            before = srv.maps.get(k)
            braw = before and (before.metadata.annotations or {}).get(KEY)
            brv = before and before.metadata.resource_version
            op = rng.choice(["get", "get", "create", "update", "update"])
            try:
                out = await (lk.get() if op == "get" else lk.create(dict(rec)) if op == "create" else lk.update(dict(rec)))
                ok = True
            except exceptions.ApiException as e:
                ok, err = False, e
            except Exception as e:
                ok, err = False, e
                check(op == "update" and seen[i] is None, lambda: f"{op} raised {e!r}")
            if op == "get":
                if srv.fail is not None:
                    check(not ok and err.status == srv.fail, "a failed read is not reported")
                    continue
                check(ok, lambda: f"reading failed: {err!r}")
                if before is None:
                    check(out == (None, None), lambda: f"a missing config map gives {out}")
                else:
                    want = json.loads(braw) if braw else {}
                    check(out[0] == want and (out[1] or "") == (braw or ""), lambda: f"gives {out} for {braw!r}")
                    seen[i] = brv
                continue
            after = srv.maps.get(k)
            may = srv.fail is None and (before is None if op == "create" else before is not None and seen[i] == brv)
            check(ok == may, lambda: f"{op} {'succeeded' if ok else 'failed'}; fails with {srv.fail}, knows {seen[i]}, is {brv}")
            if ok:
                check(json.loads(after.metadata.annotations[KEY]) == rec, lambda: f"wrote {after.metadata.annotations}")
                check(all(after.metadata.annotations.get(a) == b for a, b in extra.items()), "other annotations are lost")
                if had:
                    check(after.data == {"a": "b"}, "the data of the config map is lost")
                seen[i] = after.metadata.resource_version
            else:
                check(after is before, "a failed write changed something")
                if op == "update" and srv.fail is not None:
                    pass
    run(go)
