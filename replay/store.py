"""C07, C08: store and indexes against a dictionary."""
import asyncio

from lib import Violation, check, run, scenario, jig


class Obj:
    def __init__(self, key, vals, bad=False):
        self.key, self.vals, self.bad = key, vals, bad

    def __repr__(self):
        return f"Obj({self.key},{self.vals})"


class EqObj(Obj):
    """Objects with the same key compare equal whatever else they hold."""
    def __eq__(self, o):
        return isinstance(o, Obj) and self.key == o.key

    __hash__ = None


class KF(Exception):
    pass


def keyf(o):
    if o.bad:
        raise KF(o)
    return o.key


def by(n):
    return lambda o: list(o.vals[n])


def rand_obj(rng, bad=0.0):
    vals = [[rng.choice("xyz") for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in range(3)]
    return rng.choice([Obj, EqObj])(rng.choice("abcd"), vals, rng.random() < bad)


def rng_obj():
    return Obj("p", [["x"], ["y"], []])


async def compare(st, ref, idx, what):
    from aiok8s.cache import store
    check(sorted(st.list_keys()) == sorted(ref), f"{what}: list_keys {st.list_keys()} expected {sorted(ref)}")
    check({id(o) for o in st.list()} == {id(o) for o in ref.values()} and len(st.list()) == len(ref),
          f"{what}: list {st.list()} expected {ref}")
    for k in "abcde":
        check(st.get_by_key(k) is ref.get(k), f"{what}: get_by_key({k}) = {st.get_by_key(k)}, expected {ref.get(k)}")
        check(st.get(Obj(k, [])) is ref.get(k), f"{what}: get({k})")
    if idx:
        probe = rng_obj()
        for what2, f in (("index", lambda: st.index("nope", probe)), ("index_keys", lambda: st.index_keys("nope", "x")),
                         ("by_index", lambda: st.by_index("nope", "x"))):
            try:
                got = await f()
            except Exception:
                continue
            check(False, f"{what}: {what2} of an index that does not exist gave {got!r}")
    for name, f in idx.items():
        allv = {v for o in ref.values() for v in f(o)}
        got = await st.list_index_func_values(name)
        check(sorted(got) == sorted(allv), f"{what}: index {name} lists values {sorted(got)}, expected {sorted(allv)}")
        for v in "xyzw":
            want = {k for k, o in ref.items() if v in f(o)}
            ks = await st.index_keys(name, v)
            check(sorted(ks) == sorted(want), f"{what}: index_keys({name},{v}) = {sorted(ks)}, expected {sorted(want)}")
            os_ = await st.by_index(name, v)
            check(sorted(map(id, os_)) == sorted(id(ref[k]) for k in want), f"{what}: by_index({name},{v}) = {os_}")
        for _ in range(1):
            probe = Obj("p", [["x"], ["y", "z", "y"], []])
            want = {id(o) for o in ref.values() if set(f(o)) & set(f(probe))}
            os_ = await st.index(name, probe)
            check(sorted(map(id, os_)) == sorted(want), f"{what}: index({name}) = {os_}")


async def history(rng, idx_names, bad, concurrent=False):
    from aiok8s.cache import store, index
    idx = {n: by(i) for i, n in enumerate(idx_names)}
    if idx and rng.random() < 0.7:
        st = store.new_indexer(keyf, index.Indexers(idx))
    else:
        st = store.new_indexer(keyf, index.Indexers()) if rng.random() < 0.5 else store.new_store(keyf)
        names = list(idx)
        if names:
            await st.add_indexers(index.Indexers({n: idx[n] for n in names}))
    ref = {}
    held = []          # earlier answers, which later changes must not touch
    await compare(st, ref, idx, "new store")
    for step in range(rng.randint(1, 14)):
        op = rng.choice(["add", "add", "update", "delete", "replace", "indexers"])
        if op in ("add", "update", "delete"):
            o = rand_obj(rng, bad)
            if op != "delete" and ref and rng.random() < 0.3:
                o = rng.choice(list(ref.values()))       # the very object that is stored
            try:
                await getattr(st, op)(o)
            except store.StoreKeyError as e:
                check(o.bad and e.obj is o, f"{op}: StoreKeyError for {e.obj}")
            else:
                check(not o.bad, f"{op}: failing key function ignored")
                if op == "delete":
                    ref.pop(o.key, None)
                else:
                    ref[o.key] = o
        elif op == "replace":
            objs = [rand_obj(rng, bad) for _ in range(rng.randint(0, 5))]
            try:
                await st.replace(objs, "1")
            except store.StoreKeyError as e:
                check(e.obj.bad and any(e.obj is o for o in objs), f"replace: StoreKeyError for {e.obj}")
            else:
                check(not any(o.bad for o in objs), "replace: failing key function ignored")
                ref = {o.key: o for o in objs}
        elif idx:
            new = {rng.choice(["q1", "q2"] + list(idx)): by(2)}
            refuse = bool(ref) or any(n in idx for n in new)
            try:
                await st.add_indexers(index.Indexers(new))
            except Exception:
                check(refuse, f"add_indexers({list(new)}) refused by an empty store with {list(idx)}")
            else:
                check(not refuse, f"add_indexers({list(new)}) accepted: store {ref}, indexes {list(idx)}")
                idx.update(new)
        await compare(st, ref, idx, f"step {step} after {op}")
        for nm, got, was in held:
            check(len(got) == len(was) and all(a is b for a, b in zip(got, was)), f"step {step}: {op} changed what {nm} had answered before")
        held = [(nm, got, list(got)) for nm, got in (("list", st.list()), ("list_keys", st.list_keys()))]


@scenario("C07")
def map_history(rng):
    """Random histories with a key function that may fail."""
    run(history, rng, rng.choice([[], ["i0"]]), 0.15)


@scenario("C08")
def index_history(rng):
    """Random histories with indexes whose functions yield no, several or repeated values."""
    run(history, rng, rng.choice([["i0"], ["i0", "i1"], ["i0", "i1", "i2"]]), 0.05)


@scenario("C07", 0.3)
def concurrent(rng):
    """Concurrent writers to different keys do not disturb each other."""
    async def main():
        from aiok8s.cache import store
        st = store.new_store(keyf)
        ref = {}

        async def writer(k):
            last = None
            for _ in range(rng.randint(1, 6)):
                await jig(rng)
                o = Obj(k, [[], [], []])
                if rng.random() < 0.3:
                    await st.delete(o)
                    last = None
                else:
                    await (st.add if rng.random() < 0.5 else st.update)(o)
                    last = o
                check(st.get_by_key(k) is last, f"key {k}: not the object written last")
            if last is not None:
                ref[k] = last
        await asyncio.gather(*[writer(k) for k in "abc"])
        await compare(st, ref, {}, "after concurrent writers")
    run(main)
