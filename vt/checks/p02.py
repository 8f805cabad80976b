from ..machine import Machine

RULE = ('random histories of valid and invalid changes on point and slot series, with a full fingerprint of the series before and after every '
        'refused one; non trivial: with at least two refused operations and three accepted, distinct by sequence of operations')
FLOORS = {'rejections': 300, 'accepted': 300}


def history(ctx, rng, index):
    machine = Machine(ctx, rng, {'rejected'}).run(rng.randint(10, 60))
    if machine.accepted < 3 or machine.rejected < 2:
        ctx._sig = None
    ctx.sample(machine.log)


CASES = {'history': {'run': history, 'quick': 3000, 'thorough': 40000}}
