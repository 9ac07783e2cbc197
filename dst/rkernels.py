"""Kernels that draw random numbers (C13). Each folds what it draws into particle.acc, in double precision."""
from parcels import rng as ParcelsRandom


def RRandom(particle, fieldset, time):
    particle.acc = particle.acc * 0.75 + ParcelsRandom.random()


def RUniform(particle, fieldset, time):
    particle.acc = particle.acc * 0.75 + ParcelsRandom.uniform(-2., 3.)


def RInt(particle, fieldset, time):
    particle.acc = particle.acc * 0.75 + ParcelsRandom.randint(0, 1000)


def RNormal(particle, fieldset, time):
    particle.acc = particle.acc * 0.75 + ParcelsRandom.normalvariate(1., 2.)


def RExpo(particle, fieldset, time):
    particle.acc = particle.acc * 0.75 + ParcelsRandom.expovariate(0.5)


def RVonMises(particle, fieldset, time):
    particle.acc = particle.acc * 0.75 + ParcelsRandom.vonmisesvariate(1., 4.)


def RBranch(particle, fieldset, time):
    particle.acc = particle.acc * 0.75 + ParcelsRandom.random()
    if particle.acc > 1.5:
        particle.acc = particle.acc * 0.75 + ParcelsRandom.normalvariate(1., 2.)
        particle.acc = particle.acc * 0.75 + ParcelsRandom.uniform(-2., 3.)


def Still(particle, fieldset, time):
    particle.lon += 0.


# the draws of one step, in order: (generator, arguments)
D = {'random': ('random', ()), 'uniform': ('uniform', (-2., 3.)), 'randint': ('randint', (0, 1000)), 'normal': ('normalvariate', (1., 2.)),
     'expo': ('expovariate', (0.5,)), 'vonmises': ('vonmisesvariate', (1., 4.))}


def fold(draw, name, acc):
    """One step of kernel `name` on acc, with draw(kind) as the source of random numbers."""
    one = {'RRandom': 'random', 'RUniform': 'uniform', 'RInt': 'randint', 'RNormal': 'normal', 'RExpo': 'expo', 'RVonMises': 'vonmises'}
    if name in one:
        return acc * 0.75 + draw(one[name])
    if name == 'RBranch':
        acc = acc * 0.75 + draw('random')
        if acc > 1.5:
            acc = acc * 0.75 + draw('normal')
            acc = acc * 0.75 + draw('uniform')
        return acc
    return acc
