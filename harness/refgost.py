"""Reference model of the standards gostcrypto implements.

Written over Python integers directly from the standards, sharing no code and
no table layout with gostcrypto.  The constants below (pi, the rows of the
matrix A, the iteration constants C, the curve parameters) are the published
ones; selftest.py checks the model against published vectors.
"""

PI = (
    0xfc, 0xee, 0xdd, 0x11, 0xcf, 0x6e, 0x31, 0x16, 0xfb, 0xc4, 0xfa, 0xda, 0x23, 0xc5, 0x04, 0x4d,
    0xe9, 0x77, 0xf0, 0xdb, 0x93, 0x2e, 0x99, 0xba, 0x17, 0x36, 0xf1, 0xbb, 0x14, 0xcd, 0x5f, 0xc1,
    0xf9, 0x18, 0x65, 0x5a, 0xe2, 0x5c, 0xef, 0x21, 0x81, 0x1c, 0x3c, 0x42, 0x8b, 0x01, 0x8e, 0x4f,
    0x05, 0x84, 0x02, 0xae, 0xe3, 0x6a, 0x8f, 0xa0, 0x06, 0x0b, 0xed, 0x98, 0x7f, 0xd4, 0xd3, 0x1f,
    0xeb, 0x34, 0x2c, 0x51, 0xea, 0xc8, 0x48, 0xab, 0xf2, 0x2a, 0x68, 0xa2, 0xfd, 0x3a, 0xce, 0xcc,
    0xb5, 0x70, 0x0e, 0x56, 0x08, 0x0c, 0x76, 0x12, 0xbf, 0x72, 0x13, 0x47, 0x9c, 0xb7, 0x5d, 0x87,
    0x15, 0xa1, 0x96, 0x29, 0x10, 0x7b, 0x9a, 0xc7, 0xf3, 0x91, 0x78, 0x6f, 0x9d, 0x9e, 0xb2, 0xb1,
    0x32, 0x75, 0x19, 0x3d, 0xff, 0x35, 0x8a, 0x7e, 0x6d, 0x54, 0xc6, 0x80, 0xc3, 0xbd, 0x0d, 0x57,
    0xdf, 0xf5, 0x24, 0xa9, 0x3e, 0xa8, 0x43, 0xc9, 0xd7, 0x79, 0xd6, 0xf6, 0x7c, 0x22, 0xb9, 0x03,
    0xe0, 0x0f, 0xec, 0xde, 0x7a, 0x94, 0xb0, 0xbc, 0xdc, 0xe8, 0x28, 0x50, 0x4e, 0x33, 0x0a, 0x4a,
    0xa7, 0x97, 0x60, 0x73, 0x1e, 0x00, 0x62, 0x44, 0x1a, 0xb8, 0x38, 0x82, 0x64, 0x9f, 0x26, 0x41,
    0xad, 0x45, 0x46, 0x92, 0x27, 0x5e, 0x55, 0x2f, 0x8c, 0xa3, 0xa5, 0x7d, 0x69, 0xd5, 0x95, 0x3b,
    0x07, 0x58, 0xb3, 0x40, 0x86, 0xac, 0x1d, 0xf7, 0x30, 0x37, 0x6b, 0xe4, 0x88, 0xd9, 0xe7, 0x89,
    0xe1, 0x1b, 0x83, 0x49, 0x4c, 0x3f, 0xf8, 0xfe, 0x8d, 0x53, 0xaa, 0x90, 0xca, 0xd8, 0x85, 0x61,
    0x20, 0x71, 0x67, 0xa4, 0x2d, 0x2b, 0x09, 0x5b, 0xcb, 0x9b, 0x25, 0xd0, 0xbe, 0xe5, 0x6c, 0x52,
    0x59, 0xa6, 0x74, 0xd2, 0xe6, 0xf4, 0xb4, 0xc0, 0xd1, 0x66, 0xaf, 0xc2, 0x39, 0x4b, 0x63, 0xb6,
)

A = (
    0x8e20faa72ba0b470, 0x47107ddd9b505a38, 0xad08b0e0c3282d1c, 0xd8045870ef14980e,
    0x6c022c38f90a4c07, 0x3601161cf205268d, 0x1b8e0b0e798c13c8, 0x83478b07b2468764,
    0xa011d380818e8f40, 0x5086e740ce47c920, 0x2843fd2067adea10, 0x14aff010bdd87508,
    0x0ad97808d06cb404, 0x05e23c0468365a02, 0x8c711e02341b2d01, 0x46b60f011a83988e,
    0x90dab52a387ae76f, 0x486dd4151c3dfdb9, 0x24b86a840e90f0d2, 0x125c354207487869,
    0x092e94218d243cba, 0x8a174a9ec8121e5d, 0x4585254f64090fa0, 0xaccc9ca9328a8950,
    0x9d4df05d5f661451, 0xc0a878a0a1330aa6, 0x60543c50de970553, 0x302a1e286fc58ca7,
    0x18150f14b9ec46dd, 0x0c84890ad27623e0, 0x0642ca05693b9f70, 0x0321658cba93c138,
    0x86275df09ce8aaa8, 0x439da0784e745554, 0xafc0503c273aa42a, 0xd960281e9d1d5215,
    0xe230140fc0802984, 0x71180a8960409a42, 0xb60c05ca30204d21, 0x5b068c651810a89e,
    0x456c34887a3805b9, 0xac361a443d1c8cd2, 0x561b0d22900e4669, 0x2b838811480723ba,
    0x9bcf4486248d9f5d, 0xc3e9224312c8c1a0, 0xeffa11af0964ee50, 0xf97d86d98a327728,
    0xe4fa2054a80b329c, 0x727d102a548b194e, 0x39b008152acb8227, 0x9258048415eb419d,
    0x492c024284fbaec0, 0xaa16012142f35760, 0x550b8e9e21f7a530, 0xa48b474f9ef5dc18,
    0x70a6a56e2440598e, 0x3853dc371220a247, 0x1ca76e95091051ad, 0x0edd37c48a08a6d8,
    0x07e095624504536c, 0x8d70c431ac02a736, 0xc83862965601dd1b, 0x641c314b2b8ee083,
)

C = (
    'b1085bda1ecadae9ebcb2f81c0657c1f2f6a76432e45d016714eb88d7585c4fc4b7ce09192676901a2422a08a460d31505767436cc744d23dd806559f2a64507',
    '6fa3b58aa99d2f1a4fe39d460f70b5d7f3feea720a232b9861d55e0f16b501319ab5176b12d699585cb561c2db0aa7ca55dda21bd7cbcd56e679047021b19bb7',
    'f574dcac2bce2fc70a39fc286a3d843506f15e5f529c1f8bf2ea7514b1297b7bd3e20fe490359eb1c1c93a376062db09c2b6f443867adb31991e96f50aba0ab2',
    'ef1fdfb3e81566d2f948e1a05d71e4dd488e857e335c3c7d9d721cad685e353fa9d72c82ed03d675d8b71333935203be3453eaa193e837f1220cbebc84e3d12e',
    '4bea6bacad4747999a3f410c6ca923637f151c1f1686104a359e35d7800fffbdbfcd1747253af5a3dfff00b723271a167a56a27ea9ea63f5601758fd7c6cfe57',
    'ae4faeae1d3ad3d96fa4c33b7a3039c02d66c4f95142a46c187f9ab49af08ec6cffaa6b71c9ab7b40af21f66c2bec6b6bf71c57236904f35fa68407a46647d6e',
    'f4c70e16eeaac5ec51ac86febf240954399ec6c7e6bf87c9d3473e33197a93c90992abc52d822c3706476983284a05043517454ca23c4af38886564d3a14d493',
    '9b1f5b424d93c9a703e7aa020c6e41414eb7f8719c36de1e89b4443b4ddbc49af4892bcb929b069069d18d2bd1a5c42f36acc2355951a8d9a47f0dd4bf02e71e',
    '378f5a541631229b944c9ad8ec165fde3a7d3a1b258942243cd955b7e00d0984800a440bdbb2ceb17b2b8a9aa6079c540e38dc92cb1f2a607261445183235adb',
    'abbedea680056f52382ae548b2e4f3f38941e71cff8a78db1fffe18a1b3361039fe76702af69334b7a1e6c303b7652f43698fad1153bb6c374b4c7fb98459ced',
    '7bcd9ed0efc889fb3002c6cd635afe94d8fa6bbbebab076120018021148466798a1d71efea48b9caefbacd1d7d476e98dea2594ac06fd85d6bcaa4cd81f32d1b',
    '378ee767f11631bad21380b00449b17acda43c32bcdf1d77f82012d430219f9b5d80ef9d1891cc86e71da4aa88e12852faf417d5d9b21b9948bc924af11bd720',
)

CURVES = {
    'id-tc26-gost-3410-2012-256-paramSetB': {
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
        'a': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd94,
        'b': 0xa6,
        'm': 0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893,
        'q': 0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893,
        'x': 0x1,
        'y': 0x8d91e471e0989cda27df505a453f2b7635294f2ddf23e3b122acc99c9e9f1e14,
    },
    'id-tc26-gost-3410-2012-256-paramSetC': {
        'p': 0x8000000000000000000000000000000000000000000000000000000000000c99,
        'a': 0x8000000000000000000000000000000000000000000000000000000000000c96,
        'b': 0x3e1af419a269a5f866a7d3c25c3df80ae979259373ff2b182f49d4ce7e1bbc8b,
        'm': 0x800000000000000000000000000000015f700cfff1a624e5e497161bcc8a198f,
        'q': 0x800000000000000000000000000000015f700cfff1a624e5e497161bcc8a198f,
        'x': 0x1,
        'y': 0x3fa8124359f96680b83d1c3eb2c070e5c545c9858d03ecfb744bf8d717717efc,
    },
    'id-tc26-gost-3410-2012-256-paramSetD': {
        'p': 0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d759b,
        'a': 0x9b9f605f5a858107ab1ec85e6b41c8aacf846e86789051d37998f7b9022d7598,
        'b': 0x805a,
        'm': 0x9b9f605f5a858107ab1ec85e6b41c8aa582ca3511eddfb74f02f3a6598980bb9,
        'q': 0x9b9f605f5a858107ab1ec85e6b41c8aa582ca3511eddfb74f02f3a6598980bb9,
        'x': 0x0,
        'y': 0x41ece55743711a8c3cbf3783cd08c0ee4d4dc440d4641a8f366e550dfdb3bb67,
    },
    'id-tc26-gost-3410-12-512-paramSetA': {
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
        'a': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc4,
        'b': 0xe8c2505dedfc86ddc1bd0b2b6667f1da34b82574761cb0e879bd081cfd0b6265ee3cb090f30d27614cb4574010da90dd862ef9d4ebee4761503190785a71c760,
        'm': 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff27e69532f48d89116ff22b8d4e0560609b4b38abfad2b85dcacdb1411f10b275,
        'q': 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff27e69532f48d89116ff22b8d4e0560609b4b38abfad2b85dcacdb1411f10b275,
        'x': 0x3,
        'y': 0x7503cfe87a836ae3a61b8816e25450e6ce5e1c93acf1abc1778064fdcbefa921df1626be4fd036e93d75e6a50e3a41e98028fe5fc235f5b889a589cb5215f2a4,
    },
    'id-tc26-gost-3410-12-512-paramSetB': {
        'p': 0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006f,
        'a': 0x8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006c,
        'b': 0x687d1b459dc841457e3e06cf6f5e2517b97c7d614af138bcbf85dc806c4b289f3e965d2db1416d217f8b276fad1ab69c50f78bee1fa3106efb8ccbc7c5140116,
        'm': 0x800000000000000000000000000000000000000000000000000000000000000149a1ec142565a545acfdb77bd9d40cfa8b996712101bea0ec6346c54374f25bd,
        'q': 0x800000000000000000000000000000000000000000000000000000000000000149a1ec142565a545acfdb77bd9d40cfa8b996712101bea0ec6346c54374f25bd,
        'x': 0x2,
        'y': 0x1a8f7eda389b094c2c071e3647a8940f3c123b697578c213be6dd9e6c8ec7335dcb228fd1edf4a39152cbcaaf8c0398828041055f94ceeec7e21340780fe41bd,
    },
    'id-tc26-gost-3410-2012-256-paramSetA': {
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd97,
        'a': 0xc2173f1513981673af4892c23035a27ce25e2013bf95aa33b22c656f277e7335,
        'b': 0x295f9bae7428ed9ccc20e7c359a9d41a22fccd9108e17bf7ba9337a6f8ae9513,
        'e': 0x1,
        'd': 0x605f6b7c183fa81578bc39cfad518132b9df62897009af7e522c32d6dc7bffb,
        'm': 0x1000000000000000000000000000000003f63377f21ed98d70456bd55b0d8319c,
        'q': 0x400000000000000000000000000000000fd8cddfc87b6635c115af556c360c67,
        'x': 0x91e38443a5e82c0d880923425712b2bb658b9196932e02c78b2582fe742daa28,
        'y': 0x32879423ab1a0375895786c4bb46e9565fde0b5344766740af268adb32322e5c,
        'u': 0xd,
        'v': 0x60ca1e32aa475b348488c38fab07649ce7ef8dbe87f22e81f92b2592dba300e7,
    },
    'id-tc26-gost-3410-2012-512-paramSetC': {
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffdc7,
        'a': 0xdc9203e514a721875485a529d2c722fb187bc8980eb866644de41c68e143064546e861c0e2c9edd92ade71f46fcf50ff2ad97f951fda9f2a2eb6546f39689bd3,
        'b': 0xb4c4ee28cebc6c2c8ac12952cf37f16ac7efb6a9f69f4b57ffda2e4f0de5ade038cbc2fff719d2c18de0284b8bfef3b52b8cc7a5f5bf0a3c8d2319a5312557e1,
        'e': 0x1,
        'd': 0x9e4f5d8c017d8d9f13a5cf3cdf5bfe4dab402d54198e31ebde28a0621050439ca6b39e0a515c06b304e2ce43e79e369e91a0cfc2bc2a22b4ca302dbb33ee7550,
        'm': 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff26336e91941aac0130cea7fd451d40b323b6a79e9da6849a5188f3bd1fc08fb4,
        'q': 0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc98cdba46506ab004c33a9ff5147502cc8eda9e7a769a12694623cef47f023ed,
        'x': 0xe2e31edfc23de7bdebe241ce593ef5de2295b7a9cbaef021d385f7074cea043aa27272a7ae602bf2a7b9033db9ed3610c6fb85487eae97aac5bc7928c1950148,
        'y': 0xf5ce40d95b5eb899abbccff5911cb8577939804d6527378b8c108c3d2090ff9be18e2d33e3021ed2ef32d85822423b6304f726aa854bae07d0396e9a9addc40f,
        'u': 0x12,
        'v': 0x469af79d1fb1f5e16b99592b77a01e2a0fdfb0d01794368d9a56117f7b38669522dd4b650cf789eebf068c5d139732f0905622c04b2baae7600303ee73001a3d,
    },
}

MASK512 = (1 << 512) - 1

# ---------------------------------------------------------------- Streebog


def _lin(value):
    out = 0
    for i in range(64):
        if (value >> (63 - i)) & 1:
            out ^= A[i]
    return out


# _SL[j][v]: contribution to an output word of the byte pi(v) at byte position j
_SL = [[_lin(PI[v] << (8 * j)) for v in range(256)] for j in range(8)]


def _lps(value):
    raw = value.to_bytes(64, 'little')
    out = 0
    for k in range(7, -1, -1):
        word = 0
        for j in range(8):
            # tau is the transposition of the 8x8 byte matrix
            word ^= _SL[j][raw[8 * j + k]]
        out = (out << 64) | word
    return out


_C = [int(c, 16) for c in C]


def _g(n, h, m):
    key = _lps(h ^ n)
    state = m
    for c in _C:
        state = _lps(state ^ key)
        key = _lps(key ^ c)
    return state ^ key ^ h ^ m


def streebog(message, size, n=0):
    """Streebog of `message` (bytes); size is 32 or 64; n: bits counted before it."""
    message = bytes(message)
    h = int.from_bytes(b'\x01' * 64, 'little') if size == 32 else 0
    sigma = 0
    full = len(message) // 64
    for i in range(full):
        m = int.from_bytes(message[64 * i:64 * i + 64], 'little')
        h = _g(n, h, m)
        n = (n + 512) & MASK512
        sigma = (sigma + m) & MASK512
    tail = message[64 * full:]
    m = int.from_bytes(tail + b'\x01', 'little')
    h = _g(n, h, m)
    n = (n + 8 * len(tail)) & MASK512
    sigma = (sigma + m) & MASK512
    h = _g(0, h, n)
    h = _g(0, h, sigma)
    return h.to_bytes(64, 'little')[64 - size:]


def hmac(key, message, size):
    key = bytes(key).ljust(64, b'\x00')
    assert len(key) == 64
    inner = streebog(bytes(k ^ 0x36 for k in key) + bytes(message), size)
    return streebog(bytes(k ^ 0x5c for k in key) + inner, size)


def pbkdf(password, salt, count, length):
    out = b''
    index = 0
    while len(out) < length:
        index += 1
        u = hmac(password, bytes(salt) + index.to_bytes(4, 'big'), 64)
        acc = int.from_bytes(u, 'big')
        for _ in range(count - 1):
            u = hmac(password, u, 64)
            acc ^= int.from_bytes(u, 'big')
        out += acc.to_bytes(64, 'big')
    return out[:length]


class Drbg:
    """Generator of R 1323565.1.006-2017 (H = Streebog-512, 504-bit state)."""

    def __init__(self, seed):
        self.state = int.from_bytes(bytes(seed).ljust(63, b'\x00'), 'big')

    def block(self):
        self.state = (self.state + 1) % (1 << 504)
        return streebog(self.state.to_bytes(63, 'big'), 64)

    def random(self, size):
        out = b''
        for _ in range(size // 64):
            out += self.block()
        if size % 64:
            out += self.block()[64 - size % 64:]
        return out


# ---------------------------------------------------------------- Kuznechik

_PI_INV = [0] * 256
for _i, _v in enumerate(PI):
    _PI_INV[_v] = _i

_LIN = (148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1)


def _gf_mul(a, b):
    out = 0
    while b:
        if b & 1:
            out ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x1c3
        b >>= 1
    return out


def _kuz_l(value):
    """L over a 128-bit integer (byte a15 is the most significant)."""
    raw = list(value.to_bytes(16, 'big'))
    for _ in range(16):
        top = 0
        for coef, byte in zip(_LIN, raw):
            top ^= _gf_mul(byte, coef)
        raw = [top] + raw[:15]
    return int.from_bytes(bytes(raw), 'big')


_KL = [[None] * 256 for _ in range(16)]
_KLI = [[None] * 256 for _ in range(16)]


def _kuz_l_inv_slow(value):
    raw = list(value.to_bytes(16, 'big'))
    for _ in range(16):
        # undo one step: raw = [top] + a15..a1, top = sum coef * a
        rest = raw[1:]
        last = raw[0]
        for coef, byte in zip(_LIN[:15], rest):
            last ^= _gf_mul(byte, coef)
        raw = rest + [last]
    return int.from_bytes(bytes(raw), 'big')


def _build():
    for pos in range(16):
        basis = [_kuz_l(1 << (8 * (15 - pos) + b)) for b in range(8)]
        basis_i = [_kuz_l_inv_slow(1 << (8 * (15 - pos) + b)) for b in range(8)]
        for v in range(256):
            acc = acc_i = 0
            for b in range(8):
                if (v >> b) & 1:
                    acc ^= basis[b]
                    acc_i ^= basis_i[b]
            _KL[pos][v] = acc
            _KLI[pos][v] = acc_i


_build()


def _kuz_ls(value):
    out = 0
    for pos, byte in enumerate(value.to_bytes(16, 'big')):
        out ^= _KL[pos][PI[byte]]
    return out


def _kuz_sl_inv(value):
    out = 0
    for pos, byte in enumerate(value.to_bytes(16, 'big')):
        out ^= _KLI[pos][byte]
    raw = out.to_bytes(16, 'big')
    return int.from_bytes(bytes(_PI_INV[b] for b in raw), 'big')


class Kuznechik:
    block_size = 16

    def __init__(self, key):
        key = bytes(key)
        a = int.from_bytes(key[:16], 'big')
        b = int.from_bytes(key[16:], 'big')
        keys = [a, b]
        for i in range(1, 33):
            a, b = _kuz_ls(a ^ _kuz_l(i)) ^ b, a
            if i % 8 == 0:
                keys += [a, b]
        self.keys = keys

    def encrypt(self, block):
        v = int.from_bytes(bytes(block), 'big')
        for k in self.keys[:9]:
            v = _kuz_ls(v ^ k)
        return (v ^ self.keys[9]).to_bytes(16, 'big')

    def decrypt(self, block):
        v = int.from_bytes(bytes(block), 'big') ^ self.keys[9]
        for k in reversed(self.keys[:9]):
            v = _kuz_sl_inv(v) ^ k
        return v.to_bytes(16, 'big')


# -------------------------------------------------------------------- Magma

_MAGMA_PI = (
    (12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1),
    (6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15),
    (11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0),
    (12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11),
    (7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12),
    (5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0),
    (8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7),
    (1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2),
)


def _magma_t(value):
    out = 0
    for i in range(8):
        out |= _MAGMA_PI[i][(value >> (4 * i)) & 15] << (4 * i)
    return out


def _magma_f(value, key):
    t = _magma_t((value + key) & 0xffffffff)
    return ((t << 11) | (t >> 21)) & 0xffffffff


class Magma:
    block_size = 8

    def __init__(self, key):
        key = bytes(key)
        words = [int.from_bytes(key[4 * i:4 * i + 4], 'big') for i in range(8)]
        self.keys = words * 3 + words[::-1]

    @staticmethod
    def _run(block, keys):
        v = int.from_bytes(bytes(block), 'big')
        left, right = v >> 32, v & 0xffffffff
        for k in keys:
            left, right = right, left ^ _magma_f(right, k)
        return ((right << 32) | left).to_bytes(8, 'big')

    def encrypt(self, block):
        return self._run(block, self.keys)

    def decrypt(self, block):
        return self._run(block, self.keys[::-1])


CIPHERS = {'kuznechik': Kuznechik, 'magma': Magma}

# -------------------------------------------------------------------- modes


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def blocks(data, size):
    return [data[i:i + size] for i in range(0, len(data), size)]


def pad1(data, size):
    return data + b'\x00' * (-len(data) % size)


def pad2(data, size):
    return data + b'\x80' + b'\x00' * (-(len(data) + 1) % size)


DEFAULT_IV = {
    ('kuznechik', 'cbc'): '1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819',
    ('kuznechik', 'cfb'): '1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819',
    ('kuznechik', 'ofb'): '1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819',
    ('kuznechik', 'ctr'): '1234567890abcef0',
    ('magma', 'cbc'): '1234567890abcdef234567890abcdef134567890abcdef12',
    ('magma', 'cfb'): '1234567890abcdef234567890abcdef1',
    ('magma', 'ofb'): '1234567890abcdef234567890abcdef1',
    ('magma', 'ctr'): '12345678',
}


class ModeModel:
    """One cipher object: `run(data, direction)` processes one call.

    Data for ECB and CBC must already be padded.  `register` is the list of
    blocks of the shift register, `counter` the integer counter block.
    """

    def __init__(self, cipher, key, mode, iv=b''):
        self.c = CIPHERS[cipher](key)
        self.n = self.c.block_size
        self.mode = mode
        if mode == 'ctr':
            self.counter = int.from_bytes(bytes(iv).ljust(self.n, b'\x00'), 'big')
        elif mode != 'ecb':
            self.register = blocks(bytes(iv), self.n)

    def _shift(self, block):
        self.register = self.register[1:] + [block]

    @property
    def counter_bytes(self):
        return self.counter.to_bytes(self.n, 'big')

    def run(self, data, direction):
        out = []
        encrypting = direction == 'encrypt'
        for p in blocks(bytes(data), self.n):
            if self.mode == 'ecb':
                out.append(self.c.encrypt(p) if encrypting else self.c.decrypt(p))
            elif self.mode == 'cbc':
                if encrypting:
                    r = self.c.encrypt(xor(p, self.register[0]))
                    self._shift(r)
                else:
                    r = xor(self.c.decrypt(p), self.register[0])
                    self._shift(p)
                out.append(r)
            elif self.mode == 'cfb':
                r = xor(p, self.c.encrypt(self.register[0]))
                out.append(r)
                if len(p) == self.n:
                    self._shift(r if encrypting else p)
            elif self.mode == 'ofb':
                gamma = self.c.encrypt(self.register[0])
                out.append(xor(p, gamma))
                if len(p) == self.n:
                    self._shift(gamma)
            else:
                out.append(xor(p, self.c.encrypt(self.counter_bytes)))
                self.counter = (self.counter + 1) % (1 << (8 * self.n))
        return b''.join(out)


def omac(cipher, key, message, size):
    c = CIPHERS[cipher](key)
    n = c.block_size
    bits = 8 * n
    rb = 0x87 if n == 16 else 0x1b

    def double(v):
        v <<= 1
        if v >> bits:
            v = (v ^ rb) & ((1 << bits) - 1)
        return v

    k1 = double(int.from_bytes(c.encrypt(bytes(n)), 'big'))
    k2 = double(k1)
    message = bytes(message)
    parts = blocks(message, n) or [b'']
    state = bytes(n)
    for part in parts[:-1]:
        state = c.encrypt(xor(state, part))
    last = parts[-1]
    if len(last) == n:
        last = xor(last, k1.to_bytes(n, 'big'))
    else:
        last = xor((last + b'\x80').ljust(n, b'\x00'), k2.to_bytes(n, 'big'))
    return c.encrypt(xor(state, last))[:size]


# ------------------------------------------------------------ elliptic curve


class Curve:
    def __init__(self, p, a, b, m, q, x, y, **_):
        self.p, self.a, self.b, self.m, self.q = p, a, b, m, q
        self.base = (x, y)

    def on_curve(self, pt):
        x, y = pt
        return (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0

    def neg(self, pt):
        return None if pt is None else (pt[0], -pt[1] % self.p)

    def add(self, p1, p2):
        """Affine addition; None is the point at infinity."""
        if p1 is None:
            return p2
        if p2 is None:
            return p1
        p = self.p
        x1, y1 = p1
        x2, y2 = p2
        if x1 == x2:
            if (y1 + y2) % p == 0:
                return None
            lam = (3 * x1 * x1 + self.a) * pow(2 * y1, -1, p) % p
        else:
            lam = (y2 - y1) * pow(x2 - x1, -1, p) % p
        x3 = (lam * lam - x1 - x2) % p
        return x3, (lam * (x1 - x3) - y1) % p

    def mul(self, k, pt='base'):
        """k * pt, in Jacobian coordinates (k >= 0)."""
        if pt == 'base':
            pt = self.base
        if pt is None or k == 0:
            return None
        p, a = self.p, self.a
        X, Y, Z = 1, 1, 0

        def dbl(X, Y, Z):
            if Z == 0 or Y == 0:
                return 1, 1, 0
            s = 4 * X * Y * Y % p
            w = (3 * X * X + a * pow(Z, 4, p)) % p
            X3 = (w * w - 2 * s) % p
            return X3, (w * (s - X3) - 8 * pow(Y, 4, p)) % p, 2 * Y * Z % p

        x2, y2 = pt
        for bit in bin(k)[2:]:
            X, Y, Z = dbl(X, Y, Z)
            if bit == '1':
                if Z == 0:
                    X, Y, Z = x2 % p, y2 % p, 1
                    continue
                zz = Z * Z % p
                u = x2 * zz % p
                s = y2 * zz * Z % p
                h = (u - X) % p
                r = (s - Y) % p
                if h == 0:
                    if r == 0:
                        X, Y, Z = dbl(X, Y, Z)
                    else:
                        X, Y, Z = 1, 1, 0
                    continue
                hh = h * h % p
                hhh = h * hh % p
                v = X * hh % p
                X3 = (r * r - hhh - 2 * v) % p
                Y3 = (r * (v - X3) - Y * hhh) % p
                X, Y, Z = X3, Y3, Z * h % p
        if Z == 0:
            return None
        zi = pow(Z, -1, p)
        return X * zi * zi % p, Y * pow(zi, 3, p) % p


def edwards_to_canonical(p, e, d, u, v):
    """(a, b, x, y) of the Weierstrass form of e u^2 + v^2 = 1 + d u^2 v^2."""
    s = (e - d) * pow(4, -1, p) % p
    t = (e + d) * pow(6, -1, p) % p
    a = (s * s - 3 * t * t) % p
    b = (2 * t ** 3 - t * s * s) % p
    x = (s * (1 + v) * pow(1 - v, -1, p) + t) % p
    y = s * (1 + v) * pow((1 - v) * u, -1, p) % p
    return a, b, x, y


def curve(name):
    return Curve(**CURVES[name])


def hash_to_e(digest, q):
    e = int.from_bytes(bytes(digest), 'big') % q
    return e or 1


def sign_rs(cv, d, digest, k):
    """(r, s), either of which may be 0 (unusable k); k in 1..q-1."""
    e = hash_to_e(digest, cv.q)
    c = cv.mul(k)
    r = c[0] % cv.q
    return r, (r * d + k * e) % cv.q


def verify(cv, pub, digest, r, s):
    q = cv.q
    if not (0 < r < q and 0 < s < q):
        return False
    v = pow(hash_to_e(digest, q), -1, q)
    c = cv.add(cv.mul(s * v % q), cv.mul(-r * v % q, pub))
    return c is not None and c[0] % q == r


# ---------------------------------------------------------------------- OID


def oid_der(arcs):
    def base128(v):
        out = [v & 0x7f]
        v >>= 7
        while v:
            out.append(0x80 | (v & 0x7f))
            v >>= 7
        return bytes(reversed(out))
    body = base128(40 * arcs[0] + arcs[1]) + b''.join(base128(a) for a in arcs[2:])
    if len(body) < 0x80:
        length = bytes([len(body)])
    else:
        raw = len(body).to_bytes((len(body).bit_length() + 7) // 8, 'big')
        length = bytes([0x80 | len(raw)]) + raw
    return b'\x06' + length + body


def oid_parse(der):
    """Inverse of oid_der; strict, raises ValueError."""
    der = bytes(der)
    if len(der) < 2 or der[0] != 6:
        raise ValueError('tag')
    if der[1] < 0x80:
        length, pos = der[1], 2
    else:
        n = der[1] & 0x7f
        if n == 0 or len(der) < 2 + n or der[2] == 0:
            raise ValueError('length')
        length, pos = int.from_bytes(der[2:2 + n], 'big'), 2 + n
        if length < 0x80:
            raise ValueError('length not minimal')
    body = der[pos:]
    if len(body) != length or not body or body[-1] & 0x80:
        raise ValueError('length')
    values = []
    acc = 0
    start = True
    for byte in body:
        if start and byte == 0x80:
            raise ValueError('padding')
        acc = (acc << 7) | (byte & 0x7f)
        start = not byte & 0x80
        if start:
            values.append(acc)
            acc = 0
    first = values[0]
    if first < 40:
        arcs = (0, first)
    elif first < 80:
        arcs = (1, first - 40)
    else:
        arcs = (2, first - 80)
    return arcs + tuple(values[1:])


# ------------------------------------------------------------ number theory


def is_prime(n, rounds=40):
    if n < 2:
        return False
    for small in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % small == 0:
            return n == small
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for i in range(rounds):
        a = (int.from_bytes(streebog(i.to_bytes(4, 'big') + n.to_bytes(80, 'big'), 64), 'big')
             % (n - 3)) + 2
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def sqrt_mod(n, p):
    """A square root of n modulo the prime p, or None."""
    n %= p
    if n == 0:
        return 0
    if pow(n, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(n, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(n, q, p), pow(n, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r
