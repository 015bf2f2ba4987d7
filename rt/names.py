"""Names that are easily taken for one another."""


def similar(rng, name):
    """Another name that resembles the given one."""
    k = rng.randrange(14)
    if k == 0:
        return name + rng.choice('s2 ._-')
    if k == 1:
        return rng.choice(['Old ', 'x', 'A.', '2', '-', ' ']) + name
    if k == 2:
        return name.swapcase()
    if k == 3:
        return name.upper()
    if k == 4:
        return name[:-1]
    if k == 5:
        return name[1:]
    if k == 6:
        return name + name
    if k == 7:
        return name[::-1]
    if k == 8:
        return name + ' ' + str(rng.randint(1, 30))
    if k == 9:
        return name.replace(' ', '')
    if k == 10:
        return name.replace(' ', '_') if ' ' in name else name + ' '
    if k == 11:
        return name.replace('a', '.', 1) if 'a' in name else name + '.*'
    if k == 12:
        return name[:rng.randint(1, max(1, len(name) - 1))]
    return name.title()


def pick(rng, pool, taken, near=()):
    """A name that is not taken: from the pool, or resembling a name that is
    taken here or used near by."""
    for _ in range(20):
        like = list(taken) + list(near)
        if like and rng.random() < 0.5:
            name = similar(rng, rng.choice(like))
        else:
            name = rng.choice(pool)
        if name and name not in taken and '/' not in name and \
                len(name) < 80:
            return name
    return None
