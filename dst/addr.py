"""Simulated object addresses.

id() is a source of nondeterminism: whether a dead object's address comes back depends on the allocator.  The modules of
kymatio see this one instead, which hands the number of the object that died last to the next new object (any such reuse
is allowed by the language) and is the same in every execution of a seed.  Live objects always have distinct numbers."""
import builtins
import sys
import weakref

_real = builtins.id


class Addresses:
    def __init__(self):
        self.live, self.free, self.next, self.reused = {}, [], 1 << 40, 0

    def id(self, obj):
        k = _real(obj)
        if "memo" in sys._getframe(1).f_code.co_varnames:
            return k                             # a copy protocol, whose memo the copy module shares
        e = self.live.get(k)
        if e is not None and e[0]() is obj:
            return e[1]
        try:
            box = [None, None]

            def died(ref, box=box, k=k):
                if self.live.get(k) is box:
                    del self.live[k]
                self.free.append(box[1])
            box[0] = weakref.ref(obj, died)
        except TypeError:
            return k
        if self.free:
            box[1] = self.free.pop()
            self.reused += 1
        else:
            box[1] = self.next
            self.next += 64
        self.live[k] = box
        return box[1]

    def install(self):
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] == "kymatio" and m is not None:
                m.__dict__["id"] = self.id

    @staticmethod
    def uninstall():
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] == "kymatio" and m is not None:
                m.__dict__.pop("id", None)


ADDR = Addresses()
