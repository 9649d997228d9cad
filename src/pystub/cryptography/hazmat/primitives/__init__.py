from . import ciphers, hashes, hmac
