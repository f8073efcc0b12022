"""Shared by the drivers: run a call on the real code and turn what can be
observed of it into the vocabulary of the specification."""
import ast
import contextlib
import io
import json
import os
import random
import signal
import sys


class Timeout(BaseException):
    pass


class Boom(Exception):
    """raised by handlers whose action is `raise`"""


def _alarm(signum, frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)

MAX_LIST = 4000


def call(fn, seconds=20):
    """-> (reply, stdout); reply is ["ok", value] or ["err", [class, bases...]]"""
    out = io.StringIO()
    err = io.StringIO()
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            r = ["ok", fn()]
    except BaseException as ex:  # noqa: the class is the observation
        signal.setitimer(signal.ITIMER_REAL, 0)
        if isinstance(ex, KeyboardInterrupt):
            raise
        r = ["err", [c.__name__ for c in type(ex).__mro__]]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r, out.getvalue()


def val(v):
    """a value as the specification's <<tag, text>>"""
    if v is None:
        return ["n", ""]
    if isinstance(v, str):
        return ["s", v]
    return ["o", type(v).__name__]


def opts(m):
    return [[str(k)] + val(v) for k, v in list(m.items())[:MAX_LIST]]


def b(x):
    if x is True:
        return "T"
    if x is False:
        return "F"
    return "not-a-bool:" + type(x).__name__


def flag(x):
    return "T" if x else "F"


SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./+@,")


def harvest(paths, limit=400):
    """String literals of the sources: names that the code treats specially
    are most likely spelled out in it."""
    words, ints = set(), set()
    for p in paths:
        try:
            tree = ast.parse(open(p, encoding="utf-8").read())
        except (OSError, SyntaxError, ValueError):
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
                d = n.body[0]
                if isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant):
                    docs.add(id(d.value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str):
                    for w in [n.value] + n.value.split():
                        if 0 < len(w) <= 24 and set(w) <= SAFE:
                            words.add(w)
                elif isinstance(n.value, int) and not isinstance(n.value, bool) and 0 <= n.value <= 10 ** 4:
                    ints.add(n.value)
    words = sorted(words)[:limit]
    return words, sorted(ints)


def main(gen):
    """driver entry: PROFILE SEED SHARD COUNT OUT"""
    profile, seed, shard, count, out = sys.argv[1:6]
    rng = random.Random("%s/%s/%s" % (profile, seed, shard))
    traces = gen(profile, rng, int(shard), int(count))
    with open(out, "w", encoding="utf-8") as f:
        json.dump(traces, f)
