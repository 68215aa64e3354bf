"""C05 counterexamples as oracle cases."""


def cases(contract, inputs):
    return [dict(cps=inputs["text"])] if isinstance(inputs.get("text"), list) else []
