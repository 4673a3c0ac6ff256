"""Loop handling.

unroll : execute iteration by iteration while the continuation is decided, or (symbolic
         guard, small static bound) until the solver shows that another iteration is
         impossible - complete because the engine raises Unsupported when the limit is hit.
closed : symbolic trip count; see loops_closed.py"""
import terms as tm
from terms import TRUE, FALSE
from values import Unsupported
import engine as en


def run_loop(E, frame, L, ents):
    f = frame.f
    spec = E.loopspecs.get((f.name, L.ordinal))
    if spec is not None and callable(spec):
        return spec(E, frame, L, ents)
    mode = spec.get("mode") if isinstance(spec, dict) else None
    if mode == "closed":
        import loops_closed
        return loops_closed.run(E, frame, L, ents, spec)
    return unroll(E, frame, L, ents, spec)


class Snapshot:
    def __init__(self, E, frame, ents):
        self.nobl, self.nfact = len(E.obls), len(E.facts)
        self.nret = len(frame.returns)
        self.triv = getattr(E, "trivial", 0)
        self.ents = [(p, en.State(dict(s.heap), dict(s.env), s.pc)) for p, s in ents]

    def restore(self, E, frame):
        del E.obls[self.nobl:]
        del E.facts[self.nfact:]
        del frame.returns[self.nret:]
        E.trivial = self.triv
        return self.ents


def unroll(E, frame, L, ents, spec):
    f = frame.f
    exits = []
    cur = ents
    n = 0
    symbolic = 0
    limit = (spec or {}).get("limit", E.opt.get("symunroll", 72))
    snap = None
    while True:
        if n > E.unroll_limit:
            raise Unsupported("unroll limit in %s loop %d" % (f.name, L.ordinal))
        if snap is None:
            snap = Snapshot(E, frame, cur)
        npc = max(len(s.pc) for _, s in cur)
        back, ex = E.run_region(frame, L, {L.header: cur})
        back = [(p, s) for p, s in back if FALSE not in s.pc]
        if not back:
            exits.extend(ex)
            return exits
        live_ex = [x for x in ex if FALSE not in x[2].pc]
        if live_ex:
            # the guard is symbolic: is a further iteration possible at all?
            symbolic += 1
            if symbolic == 1 and mode_closed_preferred(E, frame, L, spec):
                import loops_closed
                e0 = snap.restore(E, frame)
                return exits + loops_closed.run(E, frame, L, e0, spec)
            if symbolic > 2 or (spec or {}).get("check1"):
                nb = []
                for p, s in back:
                    if E.feasible(s.pc, timeout=E.opt.get("ftimeout", 10.0)):
                        nb.append((p, s))
                back = nb
                if not back:
                    exits.extend(ex)
                    return exits
            if symbolic > limit:
                raise Unsupported("symbolic trip count in %s loop %d (no bound <= %d found)" % (f.name, L.ordinal, limit))
        else:
            snap = None
        exits.extend(ex)
        cur = back
        n += 1


def mode_closed_preferred(E, frame, L, spec):
    if spec and spec.get("mode") == "unroll":
        return False
    return E.opt.get("closed", False)
