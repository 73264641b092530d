"""An external energy code, as a user would plug it in through references."""


class Runtime:
    """E = sum h*v + sum J*v*v over external entries; labels map to numbers."""

    def __init__(self, h=(), J=(), labels=None):
        self.h, self.J, self.labels = list(h), [tuple(x) for x in J], labels
        self.mirror, self.log = None, []

    def num(self, v):
        if self.labels is not None:
            return self.labels[str(v)]
        return float(v)

    def energy(self, occ):
        v = [self.num(x) for x in occ]
        return sum(a * b for a, b in zip(self.h, v)) + sum(c * v[i] * v[j] for i, j, c in self.J)


def build(**kw):
    return Runtime(**kw)


def change(c):
    return (int(c.kmcpy_site), int(c.external_site), int(c.old_state), int(c.new_state), c.old_value, c.new_value)


def delta(runtime, external_occupation, changes, factor=1.0):
    after = list(external_occupation)
    for c in changes:
        site, value = c.as_flip()
        after[site] = value
    return factor * (runtime.energy(after) - runtime.energy(external_occupation))


def delta_all(**kw):
    return delta(kw["runtime"], kw["external_occupation"], kw["changes"], kw.get("factor", 1.0))


def apply_subset(runtime, changes):
    runtime.log.append([change(c) for c in changes])
    for c in changes:
        site, old, new = c.as_system_change_tuple()
        if runtime.mirror[site] != old:
            raise RuntimeError("external runtime out of step")
        runtime.mirror[site] = new


def apply_all(runtime=None, external_occupation=None, changes=None, event=None, simulation_state=None, tag=0):
    before = list(external_occupation)
    for c in changes:
        if before[c.external_site] != c.old_value:
            raise RuntimeError("cached occupation is not the state before the event")
    apply_subset(runtime, changes)
