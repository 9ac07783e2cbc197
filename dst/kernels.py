"""User code of the simulated application: kernels and recovery functions driven by per-particle scripts.

Each particle carries its script in variables: at which step it deletes itself (kill), at which step it fails (fail),
how (fk), how many times in a row (nf), and what recovery does about it (ract).  All arithmetic is on dyadic numbers.
"""
from parcels import ErrorCode, OperationCode  # noqa: rebound per package copy; integer constants


def KStep(particle, fieldset, time):
    if particle.n > 0. and particle.tp != time:
        particle.bad += 1.
    particle.tp = time + particle.dt
    particle.n += particle.inc
    particle.ts += time * particle.inc
    particle.lon += particle.vx * particle.dt
    particle.lat += particle.vy * particle.dt
    if particle.n == particle.kill:
        particle.delete()


def KFail(particle, fieldset, time):
    if particle.n > 0. and particle.tp != time:
        particle.bad += 1.
    particle.tp = time + particle.dt
    particle.n += particle.inc
    particle.ts += time * particle.inc
    particle.lon += particle.vx * particle.dt
    particle.lat += particle.vy * particle.dt
    if particle.n == particle.fail and particle.nf > 0.:
        if particle.fk == 1.:
            return ErrorCode.Error
        if particle.fk == 2.:
            return ErrorCode.ErrorOutOfBounds
        if particle.fk == 3.:
            return ErrorCode.ErrorTimeExtrapolation
        if particle.fk == 4.:
            return ErrorCode.ErrorThroughSurface
        if particle.fk == 5.:
            return ErrorCode.ErrorInterpolation
    if particle.n == particle.kill:
        particle.delete()


def KSample(particle, fieldset, time):
    if particle.n > 0. and particle.tp != time:
        particle.bad += 1.
    particle.tp = time + particle.dt
    particle.n += particle.inc
    particle.ts += time * particle.inc
    particle.s = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    particle.ss += particle.s
    particle.lon += particle.vx * particle.dt
    particle.lat += particle.vy * particle.dt
    if particle.n == particle.kill:
        particle.delete()


def KSampleC(particle, fieldset, time):
    if particle.n > 0. and particle.tp != time:
        particle.bad += 1.
    particle.tp = time + particle.dt
    particle.n += particle.inc
    particle.ts += time * particle.inc
    particle.s = fieldset.C[time, particle.depth, particle.lat, particle.lon]
    particle.ss += particle.s
    particle.lon += particle.vx * particle.dt
    particle.lat += particle.vy * particle.dt
    if particle.n == particle.kill:
        particle.delete()


def KSampleFail(particle, fieldset, time):
    if particle.n > 0. and particle.tp != time:
        particle.bad += 1.
    particle.tp = time + particle.dt
    particle.n += particle.inc
    particle.ts += time * particle.inc
    particle.lon += particle.vx * particle.dt
    particle.lat += particle.vy * particle.dt
    particle.s = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    particle.ss += particle.s
    if particle.n == particle.kill:
        particle.delete()


def KExtra(particle, fieldset, time):
    particle.e += (particle.n + 1.) * particle.inc


def KOnce(particle, fieldset, time):
    particle.o1 += particle.inc


def KNext(particle, fieldset, time):
    if particle.n + 1. == particle.nd:
        particle.update_next_dt(particle.dt / 2.)


KERNELS = {'KNext': KNext, 'KStep': KStep, 'KFail': KFail, 'KSample': KSample, 'KSampleC': KSampleC, 'KSampleFail': KSampleFail, 'KExtra': KExtra, 'KOnce': KOnce}


def KFailPy(particle, fieldset, time):
    """Interpreted mode only: the step fails with an exception."""
    if particle.n > 0. and particle.tp != time:
        particle.bad += 1.
    particle.tp = time + particle.dt
    particle.n += particle.inc
    particle.ts += time * particle.inc
    particle.lon += particle.vx * particle.dt
    particle.lat += particle.vy * particle.dt
    if particle.n == particle.fail and particle.nf > 0.:
        raise_error(int(particle.fk), particle)
    if particle.n == particle.kill:
        particle.delete()


def raise_error(k, particle):
    from parcels.tools import statuscodes as sc
    if k == 1:
        raise ValueError('scripted')
    if k == 2:
        raise sc.FieldOutOfBoundError(particle.lon, particle.lat, particle.depth)
    if k == 3:
        raise sc.TimeExtrapolationError(None)
    if k == 4:
        raise sc.FieldOutOfBoundSurfaceError(particle.lon, particle.lat, particle.depth)
    raise ZeroDivisionError('scripted')


KERNELS['KFailPy'] = KFailPy
