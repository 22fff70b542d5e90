"""Stand-in for the `lammps` module: plays a known motion of a known crystal, laid out in memory as LAMMPS does it.

A Scene says what the input file holds and how the atoms move; the class records the commands it gets.  Atoms live in local
order (which spatial sorting changes between runs), tags follow `replicate`, coordinates are in the triangular frame and wrapped
into the box when atoms are re-sorted, arrays handed out are live and are poisoned when the instance is closed."""
import numpy as np

SCENE = None
LOG = []            # one list of commands per instance


class Scene:
    """motion(t, created) -> (displacement, velocity) of the sites in the order of the crystal, in the frame of the crystal's cell"""

    def __init__(self, rng, crystal, file_sc, R, tri, motion, energy, origin, order, sort=True, wrap=True, resting=False, partly=''):
        self.rng, self.crystal, self.file_sc, self.R, self.tri = rng, crystal, file_sc, R, tri
        self.motion, self.energy, self.origin, self.order = motion, energy, origin, order
        self.sort, self.wrap, self.resting, self.partly = sort, wrap, resting, partly


class Session:
    def __init__(self):
        self.commands = []
        self.steps = 0
        self.dt = None
        self.rep = None
        self.created = False
        self.closed = False
        self.frames_at = []


class lammps:
    def __init__(self, cmdargs=None, **kw):
        self.s = Session()
        LOG.append(self.s)
        self.s.args = list(cmdargs or [])
        self.sc = SCENE
        self.loaded = False

    def file(self, name):
        assert self.sc is not None
        self.s.commands.append('file ' + name)
        self.loaded = True
        self.rep = (1, 1, 1)
        self._build()

    def _build(self):
        c, f, r = self.sc.crystal, self.sc.file_sc, self.rep
        tot = [int(a * b) for a, b in zip(f, r)]
        self.tot = tot
        index = {tuple(k): i for i, k in enumerate(c.super_index(tot).tolist())}
        cellsites = c.super_index(f)[self.sc.order]
        site = []
        for z in range(r[2]):
            for y in range(r[1]):
                for x in range(r[0]):
                    for k, a, b, d in cellsites:
                        site.append(index[(int(k), int(a + x * f[0]), int(b + y * f[1]), int(d + z * f[2]))])
        self.site = np.array(site)                  # site of tag i+1
        self.na = len(site)
        self.local = np.arange(self.na)             # tag-1 of the atom at local position i
        self.box = self.sc.tri * np.array(tot, float)[:, None]
        self.ids = np.zeros(self.na, dtype=np.int32)
        self.x = np.zeros((self.na, 3))
        self.v = np.zeros((self.na, 3))
        self.shift = np.zeros((self.na, 3))
        self.sites = c.super_positions(tot)
        self._fill()

    def _fill(self):
        dt = self.s.dt or .001
        d, v = self.sc.motion(self.s.steps * dt, self.s.created, self.tot)
        pos = np.dot(self.sites + d, self.sc.R)[self.site]
        if self.sc.wrap:
            if self.s.steps == 0 or self.sc.rng.integers(3) == 0:
                f = np.dot(pos - self.sc.origin, np.linalg.inv(self.box))
                self.shift = -np.dot(np.floor(f), self.box)
            pos = pos + self.shift
        vel = np.dot(v, self.sc.R)[self.site]
        if self.sc.resting and not self.s.created:
            vel = vel * 0
        if self.sc.partly and self.s.steps == 0:        # the input sets some of the velocities only
            vel = vel.copy()
            if self.sc.partly == 'component':
                vel[:, 2] = 0
            elif len(vel) > 1:
                vel[self.sc.partly == 'first':][:len(vel) - 1] = 0
        self.x[...] = pos[self.local]
        self.v[...] = vel[self.local]
        self.ids[...] = self.local + 1

    def command(self, text):
        assert not self.s.closed
        self.s.commands.append(text)
        w = text.split()
        if w[0] == 'timestep':
            self.s.dt = float(w[1])
        elif w[0] == 'replicate':
            assert self.s.steps == 0
            self.rep = tuple(int(i) for i in w[1:4])
            self._build()
        elif w[0] == 'velocity':
            self.s.created = True
        elif w[0] == 'run':
            n = int(w[1])
            self.s.steps += n
            if self.sc.sort and n and self.sc.rng.integers(2):
                self.local = self.sc.rng.permutation(self.na)
            self._fill()
        elif w[0] not in ('fix', 'variable', 'unfix', 'thermo', 'reset_timestep'):
            raise Exception('ERROR: Unknown command: ' + text)

    commands_list = property(lambda self: self.s.commands)

    def get_natoms(self):
        return self.na

    def extract_setting(self, name):
        return {'nlocal': self.na, 'nall': self.na, 'natoms': self.na, 'triclinic': 1}[name]

    def extract_global(self, name, kind=None):
        o, b = self.sc.origin, self.box
        return {'natoms': self.na, 'nlocal': self.na, 'boxxlo': o[0], 'boxylo': o[1], 'boxzlo': o[2],
                'boxxhi': o[0] + b[0, 0], 'boxyhi': o[1] + b[1, 1], 'boxzhi': o[2] + b[2, 2],
                'xy': b[1, 0], 'xz': b[2, 0], 'yz': b[2, 1], 'dt': self.s.dt, 'ntimestep': self.s.steps}[name]

    def extract_box(self):
        o, b = self.sc.origin, self.box
        return ([o[0], o[1], o[2]], [o[0] + b[0, 0], o[1] + b[1, 1], o[2] + b[2, 2]], b[1, 0], b[2, 1], b[2, 0], [1, 1, 1], 0)

    def extract_atom(self, name, kind=None):
        return {'x': self.x, 'v': self.v, 'id': self.ids}[name]

    def gather_atoms(self, name, kind=None, count=None):
        a = {'x': self.x, 'v': self.v}.get(name)
        if name == 'id':
            return sorted(self.ids.tolist())
        return a[np.argsort(self.ids)].ravel().tolist()

    def extract_variable(self, name, group=None, kind=0):
        assert any(c.startswith('variable') and c.split()[1] == name for c in self.s.commands)
        return self.sc.energy(self.s.steps)

    def get_thermo(self, name):
        return self.sc.energy(self.s.steps)

    def close(self):
        self.s.closed = True
        self.x[...] = np.nan
        self.v[...] = np.nan
        self.ids[...] = 0
