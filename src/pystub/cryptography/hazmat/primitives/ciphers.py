import ctypes
import sys

ssl = ctypes.CDLL("libcrypto.so.3")
ssl.EVP_CIPHER_CTX_new.restype = ctypes.c_void_p
ssl.EVP_aes_256_ctr.restype = ctypes.c_void_p
ssl.EVP_aes_128_ctr.restype = ctypes.c_void_p
ssl.EVP_aes_192_ctr.restype = ctypes.c_void_p
ssl.EVP_EncryptInit_ex.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
ssl.EVP_EncryptUpdate.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int), ctypes.c_char_p, ctypes.c_int]
ssl.EVP_CIPHER_CTX_free.argtypes = [ctypes.c_void_p]


class algorithms(object):
    class AES(object):
        def __init__(self, key):
            self.key = bytes(key)
            if len(self.key) not in (16, 24, 32):
                raise ValueError("Invalid key size")


class modes(object):
    class CTR(object):
        def __init__(self, nonce):
            self.nonce = bytes(nonce)
            if len(self.nonce) != 16:
                raise ValueError("Invalid nonce size")


class Context(object):
    def __init__(self, key, nonce):
        self.c = ssl.EVP_CIPHER_CTX_new()
        t = {16: ssl.EVP_aes_128_ctr, 24: ssl.EVP_aes_192_ctr, 32: ssl.EVP_aes_256_ctr}[len(key)]()
        if ssl.EVP_EncryptInit_ex(self.c, t, None, key, nonce) != 1:
            raise RuntimeError("EVP_EncryptInit_ex")

    def update(self, b):
        sys.audit("aw.update", len(b))
        b = bytes(b)
        o = ctypes.create_string_buffer(len(b) + 16)
        n = ctypes.c_int()
        if ssl.EVP_EncryptUpdate(self.c, o, ctypes.byref(n), b, len(b)) != 1:
            raise RuntimeError("EVP_EncryptUpdate")
        return o.raw[:n.value]

    def finalize(self):
        ssl.EVP_CIPHER_CTX_free(self.c)
        self.c = None
        return b""


class Cipher(object):
    def __init__(self, algorithm, mode, backend=None):
        self.a = (algorithm.key, mode.nonce)

    def encryptor(self):
        return Context(*self.a)

    decryptor = encryptor
