"""Scenarios on the conversions between rotation representations."""
import numpy as np
from rec import Rec
from vp import enc, encv, encm

NAME = {('quat', 'aa'): 'quat_to_axis_angle', ('aa', 'quat'): 'axis_angle_to_quat', ('quat', 'mat'): 'quat_to_rotmat', ('mat', 'quat'): 'rotmat_to_quat',
        ('cardan', 'quat'): 'cardan_to_quat', ('mat', 'cardan'): 'rotmat_to_cardan', ('cardan', 'mat'): 'cardan_to_rotmat', ('quat', 'cardan'): 'quat_to_cardan',
        ('mat', 'aa'): 'rotmat_to_axis_angle', ('aa', 'mat'): 'axis_angle_to_rotmat', ('cardan', 'aa'): 'cardan_to_axis_angle', ('aa', 'cardan'): 'axis_angle_to_cardan'}


def recorder(sp):
    return RotRec()


def show(rep, x):
    if rep == 'mat':
        return encm(np.asarray(x, float))
    if rep == 'aa':
        return encv(np.asarray(x[0], float).ravel()) + [enc(x[1])]
    return encv(np.asarray(x, float).ravel())


class RotRec(Rec):
    def given(self, rep, x):
        self.rep, self.x = rep, x
        self.log('given', '', to=rep, y=show(rep, x))

    def conv(self, to, kind='array'):
        import meshmagick.rotations as R
        f = getattr(R, NAME[self.rep, to], None)
        x = self.x
        if self.rep == 'quat' and kind == 'list':
            x = [float(v) for v in x]
        if self.rep == 'aa' and kind == 'list':
            x = ([float(v) for v in x[0]], x[1])
        if self.rep == 'quat' and kind == 'tuple':
            x = tuple(float(v) for v in x)
        xs = show(self.rep, x)

        def g():
            y = f(*x) if self.rep in ('cardan', 'aa') else f(x)
            show(to, y)
            return y
        y, exc = self.call(g)
        chg = [] if show(self.rep, x) == xs else ['x']
        self.log('conv', exc, **{'from': self.rep, 'to': to, 'x': xs, 'y': show(to, y) if exc == '' else [], 'chg': chg})
        if exc == '':
            if to == 'aa':
                y = (np.asarray(y[0], float), float(y[1]))
            elif to == 'cardan':
                y = tuple(float(v) for v in y)
            else:
                y = np.asarray(y, float)
            self.rep, self.x = to, y
        return exc == ''


def near(rng):
    r = rng.random()
    return 0. if r < .4 else float(rng.choice([-1, 1])) * 10. ** float(rng.uniform(-17, -1.5))


def chain(rec, rng, reps):
    for to in reps:
        if not rec.conv(to, str(rng.choice(['array', 'array', 'list', 'tuple']))):
            return


def enum(rec, rng, k, scn, tier):
    rec.start(tag='axes')
    d = [near(rng) for _ in range(3)] if rng.random() < .5 else [0., 0., 0.]
    rec.given('cardan', tuple(float(a * np.pi / 2 + e) for a, e in zip(scn['start'], d)))
    chain(rec, rng, scn['chain'][1:])


def unit(rng, n):
    v = rng.normal(size=n)
    if rng.random() < .4:
        v[rng.permutation(n)[:rng.integers(1, n)]] *= float(rng.choice([0., 1e-9, 1e-5]))
    return v / np.linalg.norm(v)


def angle(rng):
    r = rng.random()
    if r < .3:
        return float(rng.uniform(-7, 7))
    if r < .6:
        return float(rng.choice([0, 1, -1, 2, -2, 3, 4, .5])) * np.pi / 2 + near(rng)
    if r < .8:
        return near(rng)
    return float(rng.uniform(-40, 40))


def rnd(rec, rng, k, scn, tier):
    rec.start(tag='any')
    r = rng.random()
    if r < .3:
        a = [angle(rng) for _ in range(3)]
        if rng.random() < .3:
            a[1] = float(rng.choice([-1, 1])) * np.pi / 2 + near(rng)
        rec.given('cardan', tuple(a))
    elif r < .65:
        rec.given('aa', (unit(rng, 3), angle(rng)))
    elif r < .9:
        rec.given('quat', unit(rng, 4))
    else:
        Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        if rng.random() < .5:
            Q = np.eye(3)[rng.permutation(3)] * rng.choice([-1, 1], 3)
        rec.given('mat', Q * np.sign(np.linalg.det(Q)))
    reps = []
    cur = rec.rep
    for _ in range(int(rng.integers(3, 9))):
        cur = str(rng.choice([x for x in ('quat', 'mat', 'aa', 'cardan') if x != cur]))
        reps.append(cur)
    chain(rec, rng, reps)
