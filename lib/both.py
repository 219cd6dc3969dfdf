"""A property decided from outside (histories of clients) and from inside (one part driven directly)."""
from runner import Check
import icbh


class Both(Check):
    def __init__(self, chat, part, every, cap=None, quick=None):
        self.chat, self.inner, self.every = chat, part, every
        self.id, self.level = part.id, part.level
        self.quick, self.thorough, self.cap = quick or chat.quick, chat.thorough, cap or chat.cap
        self.need = chat.need
        self.rule = chat.rule + " Every %s case instead drives the code itself: %s" % ({2: "second", 3: "third", 4: "fourth"}[every], part.rule)

    def prepare(self):
        self.chat.prepare()
        self.have = True
        try:
            self.inner.exe = icbh.build_unit(self.inner.part)
        except icbh.BuildError:
            self.have = False       # other interfaces: judged from outside only

    def of(self, case):
        return self.chat if "cfg" in case else self.inner

    def case(self, seed):
        if self.have and seed // 8 % self.every == 0:
            return self.inner.case(seed)
        return self.chat.case(seed)

    def rerun(self, case, **kw):
        c = self.of(case)
        return c.rerun(case, **kw) if c is self.chat else c.rerun(case)

    def owns(self, case):
        return self.of(case) is self.chat and self.chat.owns(case)

    def parts(self, case):
        return self.of(case).parts(case)

    def with_parts(self, case, parts):
        return self.of(case).with_parts(case, parts)
