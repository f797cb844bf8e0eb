"""Checks the reference model against published vectors (no gostcrypto code)."""
from harness import refgost as R

F = bytes.fromhex


def check_curves():
    """data/curves.json: orders, ranges and embedding degrees, recomputed."""
    from harness import curves
    count = 0
    for name in curves.NAMES[256] + curves.NAMES[512]:
        c = curves.PARAMS[name]
        p, a, b, m, q, bits = c['p'], c['a'], c['b'], c['m'], c['q'], c['bits']
        assert R.is_prime(p, 12) and R.is_prime(q, 12), name
        assert (4 * a ** 3 + 27 * b * b) % p and a and b, name
        assert 1 << (254 if bits == 256 else 508) < q < 1 << bits and p < 1 << bits, name
        assert m % q == 0 and m != p and (m - p - 1) ** 2 <= 4 * p, name
        cv = R.Curve(p, a, b, m, q, c['x'], c['y'])
        assert cv.on_curve(cv.base) and cv.mul(q) is None, name
        assert degree(p, q, 31 if bits == 256 else 131) is None, name
        if 'u' in c:
            assert R.edwards_to_canonical(p, c['e'], c['d'], c['u'], c['v']) == \
                (a, b, c['x'], c['y']), name
        count += 1
    for c in curves.MOV:
        p, q, bits = c['p'], c['q'], c['bits']
        assert R.is_prime(p, 12) and R.is_prime(q, 12), c
        assert 1 << (254 if bits == 256 else 508) < q < 1 << bits and c['m'] != p, c
        assert (c['y'] ** 2 - c['x'] ** 3 - c['a'] * c['x'] - c['b']) % p == 0, c
        assert degree(p, q, 132) == c['t'], c
        count += 1
    return count


def degree(p, q, limit):
    """The least t <= limit with p^t = 1 mod q, or None."""
    value = 1
    for t in range(1, limit + 1):
        value = value * p % q
        if value == 1:
            return t
    return None


def main():
    m1 = b'012345678901234567890123456789012345678901234567890123456789012'
    m2 = F('d1e520e2e5f2f0e82c20d1f2f0e8e1eee6e820e2edf3f6e82c20e2e5fef2fa20f120eceef0ff20f1'
           'f2f0e5ebe0ece820ede020f5f0e0e1f0fbff20efebfaeafb20c8e3eef0e5e2fb')
    vec = [
        (m1, 64, '1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa'
                 '00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48'),
        (m1, 32, '9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500'),
        (m2, 64, '1e88e62226bfca6f9994f1f2d51569e0daf8475a3b0fe61a5300eee46d961376'
                 '035fe83549ada2b8620fcd7c496ce5b33f0cb9dddc2b6460143b03dabac9fb28'),
        (m2, 32, '9dd2fe4e90409e5da87f53976d7405b0c0cac628fc669a741d50063c557e8f50'),
        (b'', 32, '3f539a213e97c802cc229d474c6aa32a825a360b2a933a949fd925208d9ce1bb'),
        (b'', 64, '8e945da209aa869f0455928529bcae4679e9873ab707b55315f56ceb98bef0a7'
                  '362f715528356ee83cda5f2aac4c6ad2ba3a715c1bcd81cb8e9f90bf4c1c1a8a'),
        (b'The quick brown fox jumps over the lazy dog', 32,
         '3e7dea7f2384b6c5a3d0e24aaa29c05e89ddd762145030ec22c71a6db8b2c1f4'),
    ]
    for msg, size, want in vec:
        assert R.streebog(msg, size).hex() == want, (msg, size)
    key = bytes(range(32))
    t = F('0126bdb87800af214341456563780100')
    assert R.hmac(key, t, 32).hex() == \
        'a1aa5f7de402d7b3d323f2991c8d4534013137010a83754fd0af6d7cd4922ed9'
    assert R.hmac(key, t, 64).hex() == (
        'a59bab22ecae19c65fbde6e5f4e9f5d8549d31f037f9df9b905500e171923a77'
        '3d5f1530f2ed7e964cb2eedc29e9ad2f3afe93b2814f79f5000ffc0366c251e6')
    assert R.pbkdf(b'password', b'salt', 1, 64).hex() == (
        '64770af7f748c3b1c9ac831dbcfd85c26111b30a8a657ddc3056b80ca73e040d'
        '2854fd36811f6d825cc4ab66ec0a68a490a9e5cf5156b3a2b7eecddbf9a16b47')
    kkey = F('8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef')
    k = R.Kuznechik(kkey)
    assert k.encrypt(F('1122334455667700ffeeddccbbaa9988')).hex() == \
        '7f679d90bebc24305a468d42b9d4edcd'
    assert k.decrypt(F('7f679d90bebc24305a468d42b9d4edcd')).hex() == \
        '1122334455667700ffeeddccbbaa9988'
    mkey = F('ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff')
    m = R.Magma(mkey)
    assert m.encrypt(F('fedcba9876543210')).hex() == '4ee901e5c2d8ca3d'
    assert m.decrypt(F('4ee901e5c2d8ca3d')).hex() == 'fedcba9876543210'
    # GOST R 34.13-2015, appendix A
    pt = F('1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a'
           '112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011')
    iv = F(R.DEFAULT_IV['kuznechik', 'cbc'])

    def run(cipher, key, mode, iv, data):
        return R.ModeModel(cipher, key, mode, iv).run(data, 'encrypt').hex()
    assert run('kuznechik', kkey, 'ctr', F('1234567890abcef0'), pt) == (
        'f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4'
        'a5eae88be6356ed3d5e877f13564a3a5cb91fab1f20cbab6d1c6d15820bdba73')
    assert run('kuznechik', kkey, 'ofb', iv, pt) == (
        '81800a59b1842b24ff1f795e897abd95ed5b47a7048cfab48fb521369d9326bf'
        '66a257ac3ca0b8b1c80fe7fc10288a13203ebbc066138660a0292243f6903150')
    assert run('kuznechik', kkey, 'cbc', iv, pt) == (
        '689972d4a085fa4d90e52e3d6d7dcc272826e661b478eca6af1e8e448d5ea5ac'
        'fe7babf1e91999e85640e8b0f49d90d0167688065a895c631a2d9a1560b63970')
    assert run('kuznechik', kkey, 'cfb', iv, pt) == (
        '81800a59b1842b24ff1f795e897abd95ed5b47a7048cfab48fb521369d9326bf'
        '79f2a8eb5cc68d38842d264e97a238b54ffebecd4e922de6c75bd9dd44fbf4d1')
    assert R.omac('kuznechik', kkey, pt, 8).hex() == '336f4d296059fbe3'
    mpt = F('92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41')
    assert run('magma', mkey, 'ctr', F('12345678'), mpt) == \
        '4e98110c97b7b93c3e250d93d6e85d69136d868807b2dbef568eb680ab52a12d'
    assert R.omac('magma', mkey, mpt, 4).hex() == '154e7210'
    # GOST R 34.10-2012, example 1
    cv = R.Curve(
        p=0x8000000000000000000000000000000000000000000000000000000000000431, a=7,
        b=0x5FBFF498AA938CE739B8E022FBAFEF40563F6E6A3472FC2A514C0CE9DAE23B7E,
        m=0x8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3,
        q=0x8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3, x=2,
        y=0x8E2A8A0E65147D4BD6316030E16D19C85C97F0A9CA267122B96ABBCEA7E8FC8)
    d = 0x7A929ADE789BB9BE10ED359DD39A72C11B60961F49397EEE1D19CE9891EC3B28
    e = 0x2DFBC1B372D89A1188C09C52E0EEC61FCE52032AB1022E8E67ECE6672B043EE5
    k = 0x77105C9B20BCD3122823C8CF6FCC7B956DE33814E95B7FE64FED924594DCEAB3
    digest = e.to_bytes(32, 'big')
    r, s = R.sign_rs(cv, d, digest, k)
    assert r == 0x41AA28D2F1AB148280CD9ED56FEDA41974053554A42767B83AD043FD39DC0493
    assert s == 0x1456C64BA4642A1653C235A98A60249BCD6D3F746B631DF928014F6C5BF9C40
    pub = cv.mul(d)
    assert pub == (0x7F2B49E270DB6D90D8595BEC458B50C58585BA1D4E9B788F6689DBD8E56FD80B,
                   0x26F1B489D6701DD185C8413A977B3CBBAF64D1C593D26627DFFB101A87FF77DA)
    assert R.verify(cv, pub, digest, r, s) and not R.verify(cv, pub, digest, r, s ^ 1)
    # curve arithmetic: affine chain against the Jacobian ladder, infinity
    for name in R.CURVES:
        c = R.curve(name)
        acc = None
        for i in range(20):
            assert c.mul(i) == acc
            acc = c.add(acc, c.base)
        assert c.mul(c.q) is None and c.mul(c.q + 5) == c.mul(5)
        assert c.add(c.base, c.neg(c.base)) is None
        par = R.CURVES[name]
        if 'u' in par:
            assert R.edwards_to_canonical(par['p'], par['e'], par['d'], par['u'], par['v']) == \
                (par['a'], par['b'], par['x'], par['y'])
    assert R.oid_der((1, 2, 840, 113549)).hex() == '06062a864886f70d'
    assert R.oid_parse(F('06062a864886f70d')) == (1, 2, 840, 113549)
    assert R.oid_der((2, 999, 3)).hex() == '0603883703'
    for bad in ('0603808001', '06810101', '0602ff', '050100'):
        try:
            R.oid_parse(F(bad))
        except ValueError:
            continue
        raise AssertionError(bad)
    print('reference model: published vectors hold')
    count = check_curves()
    print('%d curves of data/curves.json are what they claim' % count)


if __name__ == '__main__':
    main()
