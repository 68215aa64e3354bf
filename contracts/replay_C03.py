"""C03 counterexamples as oracle cases: a queue whose next message has that many bytes left, and that size limit."""


def cases(contract, inputs):
    amount, left, packed = (inputs.get(k) for k in ("amount", "left", "packed"))
    if not all(type(x) is int for x in (left, packed)) or left > 4000000 or type(amount) is int and amount > 8000000:
        return []
    out = []
    sizes = [None] if amount is None else sorted({a for a in (amount, left + 42, left + 43, left + 60, left + packed + 43) if a >= 22})
    for a in sizes:
        for pre in (None, packed):
            for n in (left - 47, left - 46, left):
                ops = [["q", max(pre - 21 - 47, 0), None, 0]] if pre else []
                ops += [["q", max(n, 0), None, 0], ["q", 90, None, 0], ["q", 5, None, 0], ["s", a], ["s", a], ["s", None]]
                out.append(dict(ops=ops))
    return out
