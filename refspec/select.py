"""Reference meaning of a rewritten single-table SELECT list (C10): what is sent, and the name, type and decryption state of each
output column, in the order of the requested items."""

CIPHER = {'max': 'order-preserving', 'min': 'order-preserving', 'sum': 'arithmetic', 'avg': 'arithmetic'}


def physical(info, name, cipher):
    return name if info['plaintext'] else info['enc-cols'][cipher]


def state(info, cipher):
    return 'plaintext' if info['plaintext'] else cipher


def one(item, meta):
    """(expression, name, type, state) of one item"""
    if isinstance(item, str):
        info = meta[item]
        return physical(info, item, 'symmetric'), item, info['type'], state(info, 'symmetric')
    for f, arg in item.items():
        if f == 'count' and arg == '*':
            return item, 'count', 'int', 'plaintext'
        info = meta[arg]
        if f == 'count':
            return {f: physical(info, arg, 'symmetric')}, arg, 'int', 'plaintext'
        return {f: physical(info, arg, CIPHER[f])}, arg, info['type'], state(info, CIPHER[f])


def several(items, meta):
    exprs, names, types, states = [], [], [], []
    for item in items:
        e, n, t, s = one(item['value'], meta)
        exprs.append(e)
        names.append(n)
        types.append(t)
        states.append(s)
    return exprs, names, types, states


def star(meta):
    exprs, names, types, states = [], [], [], []
    for name, info in meta.items():
        exprs.append(physical(info, name, 'symmetric'))
        names.append(name)
        types.append(info['type'])
        states.append(state(info, 'symmetric'))
    return exprs, names, types, states
