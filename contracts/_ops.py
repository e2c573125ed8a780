"""Helpers shared by the operator contracts."""
OPS = ["ConstantOperator", "LinearOperator", "QuadraticOperator", "CubicOperator", "QuarticOperator",
       "InputOperator", "StateInputOperator"]
POLY = {"QuadraticOperator": 2, "CubicOperator": 3, "QuarticOperator": 4}


def ncols(name, r, m):
    return {"ConstantOperator": 1, "LinearOperator": r, "QuadraticOperator": r * (r + 1) // 2,
            "CubicOperator": r * (r + 1) * (r + 2) // 6,
            "QuarticOperator": r * (r + 1) * (r + 2) * (r + 3) // 24,
            "InputOperator": m, "StateInputOperator": r * m}[name]


def make(V, name, r, m, tag="E"):
    E = V.array(tag, r, ncols(name, r, m)) if name != "ConstantOperator" else V.array(tag, r)
    return E, getattr(V.opinf.operators, name)(E)


def hasin(name):
    return "Input" in name


def documented(V, name, E, r, m, q, u, row):
    """entry `row` of the documented value, written with explicit sums"""
    if name == "ConstantOperator":
        return E[row]
    if name == "LinearOperator":
        return V.sum(r, lambda i: E[row, i] * q[i])
    if name == "InputOperator":
        return V.sum(m, lambda i: E[row, i] * u[i])
    if name == "StateInputOperator":
        return V.sum(m, lambda p: V.sum(r, lambda i: E[row, p * r + i] * u[p] * q[i]))
    if name == "QuadraticOperator":
        return V.sum(r, lambda i: V.sum(i + 1, lambda j: E[row, i * (i + 1) // 2 + j] * q[i] * q[j]))
    if name == "CubicOperator":
        return V.sum(r, lambda i: V.sum(i + 1, lambda j: V.sum(j + 1, lambda k: E[
            row, i * (i + 1) * (i + 2) // 6 + j * (j + 1) // 2 + k] * q[i] * q[j] * q[k])))
    if name == "QuarticOperator":
        return V.sum(r, lambda i: V.sum(i + 1, lambda j: V.sum(j + 1, lambda k: V.sum(k + 1, lambda l: E[
            row, i * (i + 1) * (i + 2) * (i + 3) // 24 + j * (j + 1) * (j + 2) // 6 + k * (k + 1) // 2 + l]
            * q[i] * q[j] * q[k] * q[l]))))


def ddir(f, q, h):
    """derivative of a polynomial f of degree at most 4 at q in direction h (an exact identity)"""
    return (8 * (f(q + h) - f(q - h)) - (f(q + 2 * h) - f(q - 2 * h))) / 12
