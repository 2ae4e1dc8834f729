"""The standard security handler, writing side, from the PDF specification
(revisions 2-5).  Used by pdfsave.Saver; shares no code with the code under
test (the ciphers come from the Crypto library)."""
import hashlib
import struct

from Crypto.Cipher import ARC4, AES

from .syntax import Name

PAD = bytes.fromhex('28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A')


def md5(*parts):
    h = hashlib.md5()
    for p in parts:
        h.update(p)
    return h.digest()


def rc4(key, data):
    return ARC4.new(key).encrypt(data)


def xor(key, i):
    return bytes(b ^ i for b in key)


class Scheme:
    """one way to encrypt; `ch` decides the free parameters"""

    def __init__(self, ch, kind, user, owner, p, indirect):
        self.kind = kind
        self.user, self.owner, self.p = user, owner or user, p
        self.encrypt_indirect = indirect
        self.ident = [self.rand(ch, 16), self.rand(ch, 16)]
        self.salt = self.rand(ch, 16)
        self.n_iv = 0
        self.encrypt_metadata = True
        self.method = {'rc4-40': 'rc4', 'rc4-long': 'rc4', 'v4-rc4': 'rc4', 'v4-aes': 'aes', 'v4-identity': None, 'v5-aes': 'aes256'}[kind]
        self.length = 40
        d = {'Filter': Name('Standard'), 'P': p if ch.bool(75) else p & 0xffffffff}
        if kind == 'rc4-40':
            d.update(V=1, R=2)
            if ch.bool():
                d['Length'] = 40
        elif kind == 'rc4-long':
            self.length = ch.choice([128, 40, 48, 56, 64, 80, 96, 104, 120])
            d.update(V=2, R=3, Length=self.length)
        elif kind.startswith('v4'):
            self.length = 128
            cfname = ch.choice(['StdCF', 'StdCF', 'MyFilter'])
            cf = {}
            if self.method:
                cf[cfname] = {'Type': Name('CryptFilter'), 'CFM': Name('AESV2' if self.method == 'aes' else 'V2'), 'AuthEvent': Name('DocOpen'), 'Length': 16}
            else:
                cfname = 'Identity'
            d.update(V=4, R=4, CF=cf, StmF=Name(cfname), StrF=Name(cfname), Length=128)
            if ch.bool(40):
                self.encrypt_metadata = ch.bool()
                d['EncryptMetadata'] = self.encrypt_metadata
        else:
            self.length = 256
            d.update(V=5, R=5, CF={'StdCF': {'CFM': Name('AESV3'), 'AuthEvent': Name('DocOpen'), 'Length': 32}}, StmF=Name('StdCF'), StrF=Name('StdCF'), Length=256)
            if ch.bool(40):
                self.encrypt_metadata = ch.bool()
                d['EncryptMetadata'] = self.encrypt_metadata
        self.r = d['R']
        if self.r == 5:
            self.make5(d, ch)
        else:
            self.make(d)
        self.encrypt_dict = d

    @staticmethod
    def rand(ch, n):
        return hashlib.sha256(b'rand%d' % ch.draw(1 << 30)).digest()[:n]

    # ------------------------------------------------------------ passwords
    def spell(self, pw):
        """what the algorithm sees of a password; None if it cannot be one"""
        if self.r == 5:
            return pw.encode('utf-8')[:127]
        try:
            return (pw.encode('latin-1') + PAD)[:32]
        except UnicodeEncodeError:
            return None

    def opens(self, pw):
        x = self.spell(pw or '')
        return x is not None and x in (self.spell(self.user), self.spell(self.owner))

    def is_owner_only(self, pw):
        return self.opens(pw) and self.spell(pw or '') != self.spell(self.user)

    # --------------------------------------------------------------- keys
    def make(self, d):
        n = self.length // 8
        h = md5(self.spell(self.owner))
        if self.r >= 3:
            for _ in range(50):
                h = md5(h)
        okey = h[:n]
        o = rc4(okey, self.spell(self.user))
        if self.r >= 3:
            for i in range(1, 20):
                o = rc4(xor(okey, i), o)
        key = md5(self.spell(self.user), o, struct.pack('<L', self.p & 0xffffffff), self.ident[0],
                  b'\xff\xff\xff\xff' if self.r >= 4 and not self.encrypt_metadata else b'')
        if self.r >= 3:
            for _ in range(50):
                key = md5(key[:n])
        self.key = key[:n]
        if self.r == 2:
            u = rc4(self.key, PAD)
        else:
            u = rc4(self.key, md5(PAD, self.ident[0]))
            for i in range(1, 20):
                u = rc4(xor(self.key, i), u)
            u += hashlib.sha256(u).digest()[:16]        # arbitrary padding
        d['O'], d['U'] = o, u

    def make5(self, d, ch):
        sha = lambda *a: hashlib.sha256(b''.join(a)).digest()
        self.key = sha(b'file', self.rand(ch, 16))
        uvs, uks, ovs, oks = [self.rand(ch, 8) for _ in range(4)]
        zero = b'\0' * 16
        u = sha(self.spell(self.user), uvs) + uvs + uks
        ue = AES.new(sha(self.spell(self.user), uks), AES.MODE_CBC, iv=zero).encrypt(self.key)
        o = sha(self.spell(self.owner), ovs, u) + ovs + oks
        oe = AES.new(sha(self.spell(self.owner), oks, u), AES.MODE_CBC, iv=zero).encrypt(self.key)
        perms = struct.pack('<L', self.p & 0xffffffff) + b'\xff\xff\xff\xff' + (b'T' if self.encrypt_metadata else b'F') + b'adbabcd'
        d.update(U=u, UE=ue, O=o, OE=oe, Perms=AES.new(self.key, AES.MODE_ECB).encrypt(perms))

    # ---------------------------------------------------------------- data
    def iv(self):
        self.n_iv += 1
        return hashlib.md5(self.salt + b'%d' % self.n_iv).digest()

    def encrypt(self, num, gen, data):
        if self.method is None:
            return data
        if self.method == 'aes256':
            key = self.key
        else:
            key = md5(self.key, struct.pack('<L', num)[:3], struct.pack('<L', gen)[:2], b'sAlT' if self.method == 'aes' else b'')
            key = key[:min(len(self.key) + 5, 16)]
        if self.method == 'rc4':
            return rc4(key, data)
        k = 16 - len(data) % 16
        iv = self.iv()
        return iv + AES.new(key, AES.MODE_CBC, iv=iv).encrypt(data + bytes([k]) * k)

    def string(self, num, gen, s):
        return self.encrypt(num, gen, s)

    def stream(self, num, gen, data, attrs):
        if attrs.get('Type') == Name('Metadata') and not self.encrypt_metadata:
            return data
        return self.encrypt(num, gen, data)


KINDS = ['rc4-40', 'rc4-long', 'v4-rc4', 'v4-aes', 'v4-identity', 'v5-aes']
USER = ['', 'user', 'Secret 1', 'p\xe4ss', 'x' * 31, 'y' * 40, '(', 'a b(c)']
OWNER = ['', 'owner', 'OWNER', '\xfcber', 'z' * 33, 'user2']
USER5 = USER + ['\u4e2d\u6587', '\U0001f600', 'w' * 130]


def gen_scheme(ch, kinds=None):
    ch = ch.sub('crypt')
    kind = ch.choice(kinds or KINDS)
    user = ch.choice(USER5 if kind.startswith('v5') else USER)
    owner = ch.choice(OWNER)
    p = -4
    for bit in (4, 8, 16, 32, 256, 512, 1024, 2048):
        if ch.bool(30):
            p &= ~bit
    return Scheme(ch, kind, user, owner, p, ch.bool())
