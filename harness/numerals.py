"""A runner for numbers written in an alphabet (C23)."""

import random
import string
import zlib

from drive import Runner, outcome


def limbs(n):
    out = []
    while n > 0:
        out.append(n % 10000)
        n //= 10000
    return out if n == 0 else [-1]


class Numerals(Runner):
    def start(self, ctx):
        return self.out.emit({"o": "start", "c": self.cfg, "rows": []})

    def alphabet(self, r, rnd):
        """Any characters, in any order; the default alphabet if it has as many."""
        from treebeard.numconv import BASE85

        if r == len(BASE85) and rnd.random() < 0.5:
            return BASE85
        chars = list(string.ascii_letters + string.digits + string.punctuation + "äöü€")
        if rnd.random() < 0.5:
            rnd.shuffle(chars)
        return "".join(chars[:r])

    def call(self, ctx, op, pre):
        from treebeard.numconv import BASE85, NumConv

        o, n, r, _, s, _ = op
        rnd = random.Random(zlib.crc32(repr(op).encode()) * 31 + self.seed)
        abc = self.alphabet(r, rnd)
        ev = {"o": o, "op": op, "c": self.cfg, "pre": pre, "n": n, "r": r, "s": s, "out": [], "back": [-1], "num": [-1]}
        conv = NumConv() if abc == BASE85 and rnd.random() < 0.5 else NumConv(abc)

        def run():
            if o == "repeated":
                again = list(abc)
                if n:
                    again.insert(rnd.randrange(len(abc) + 1), abc[{1: 0, 2: -1, 3: len(abc) // 2}[n]])
                NumConv("".join(again))
                return
            if o == "read":
                foreign = rnd.choice([c for c in "\x00 é~aZ0_" if c not in abc])
                got = conv.str2int("".join(foreign if d == 500 else abc[d] for d in s))
                ev["num"] = limbs(got)
                return
            num = n
            if o == "long":
                num = rnd.getrandbits(8 * n + 3)
                ev["num"] = limbs(num)
            text = conv.int2str(num)
            ev["out"] = [abc.index(c) if c in abc else 500 for c in text]
            ev["back"] = limbs(conv.str2int(text))

        _, ev["res"] = outcome(run)
        return self.out.emit(ev), ev["res"]
