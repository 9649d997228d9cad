import hmac as real


class HMAC(object):
    def __init__(self, key, algorithm, backend=None):
        self.h = real.new(bytes(key), digestmod=algorithm.name)

    def update(self, b):
        self.h.update(b)

    def finalize(self):
        h, self.h = self.h, None
        return h.digest()

    def verify(self, sig):
        assert real.compare_digest(self.finalize(), sig)
