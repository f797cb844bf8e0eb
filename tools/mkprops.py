import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=3,(id)
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
B='gostcrypto/gostcipher/gost_34_12_2015.py'; M='gostcrypto/gostcipher/gost_34_13_2015.py'
H='gostcrypto/gosthash/gost_34_11_2012.py'; HM='gostcrypto/gosthmac/r_50_1_113_2016.py'
PB='gostcrypto/gostpbkdf/r_50_1_111_2016.py'; R='gostcrypto/gostrandom/r_1323565_1_006_2017.py'
S='gostcrypto/gostsignature/gost_34_10_2012.py'; O='gostcrypto/gostoid/oid.py'; U='gostcrypto/utils/utils.py'

prop('C01','Block ciphers compute GOST R 34.12-2015 and decryption inverts encryption',
"For every 256-bit key and every block, Kuznechik and Magma block encryption and decryption return exactly the block GOST R 34.12-2015 prescribes. Decryption is the inverse of encryption, so each key selects a permutation of the block space.",
['inputs'],'every key (32 bytes) and block (16 or 8 bytes), including structured keys and blocks (constant, single-bit, carry-heavy)',
'The tests check the one example of the standard per cipher and step; table entries and carry paths those examples do not touch are never exercised.',
[B],[('S-box, linear map and key schedule of Kuznechik',B),('round function, mod 2^32 addition and key order of Magma',B)],['gostcipher.GOST34122015Kuznechik/GOST34122015Magma .encrypt/.decrypt','gostcipher.new(..., MODE_ECB)'])
prop('C02','ECB, CBC, CFB, OFB and CTR compute the modes of GOST R 34.13-2015',
"For every cipher, key, initialization vector of an allowed length (a positive multiple of the block size for CBC, CFB and OFB; half a block for CTR) and message, encrypt() on a new object returns exactly the ciphertext GOST R 34.13-2015 prescribes (s = n; for ECB and CBC after the selected padding), and decrypt() of a new object (of whole blocks for ECB and CBC) returns exactly the prescribed plaintext. When no vector is passed, the documented default vector of that mode and cipher is used.",
['inputs','configurations'],'cipher x mode x key x vector of one to several blocks x message of zero to many blocks, with and without a partial last block',
'The tests use one key, the default vectors and a four-block message; other register lengths, message lengths and the shift-register paths are not reached.',
[M],[('shift register of CBC/CFB/OFB',M),('counter block of CTR',M),('partial last block handling',M)],['gostcipher.new(...).encrypt/decrypt'])
prop('C03','Decrypting a ciphertext under the same parameters gives the plaintext back',
"For every cipher, mode, key, initialization vector and message, decrypt() of a separate object with the same parameters applied to the output of encrypt() returns the message: exactly for CFB, OFB and CTR at any length, and the padded message for ECB and CBC. The ciphertext has the length of the message (CFB, OFB, CTR) or of the padded message (ECB, CBC).",
['inputs','configurations'],'cipher x mode x padding mode x key x vector x message of any length including zero',
'The tests decrypt the fixed ciphertexts of the standard.',
[M],[('encrypt/decrypt of each mode class',M)],['gostcipher.new(...).encrypt then gostcipher.new(...).decrypt'])
prop('C04','Block-aligned streaming equals processing the whole message at once',
"For CBC (padding mode 1), CFB, OFB and CTR, feeding a message in consecutive pieces, each but the last a multiple of the block size, to one object gives the concatenation that a single call gives, for encryption and for decryption. For ECB each call is independent of all earlier calls, and the iv attribute of CBC, CFB and OFB always equals the last block of the current shift register.",
['histories'],'message x split into any number of block-aligned pieces (empty pieces included) x cipher x mode x direction x vector of one to several blocks',
'Each test makes one call on a new object, so the state carried between calls is not observed.',
[M],[('register/counter kept in the object between calls',M)],['gostcipher.new(...).encrypt/decrypt call sequences','.iv'],
[('_init_vect','shift register',M),('_counter','CTR counter block',M)])
prop('C05','The CTR counter is a big-endian integer and key stream blocks never repeat',
"In CTR mode the i-th block of an object is masked with the encryption of (vector followed by zeros) + i as a big-endian integer of the block size modulo 2^n, for any number of blocks and across calls, so no key stream block repeats within that range. The counter attribute is the counter block that will be used next, advanced once per block processed including a partial one.",
['inputs','histories'],'cipher x key x vector x total length up to and beyond the points where 1, 2 or more counter bytes wrap, in any sequence of encrypt/decrypt calls',
'The tests encrypt four blocks, so the counter never carries out of its last byte.',
[M],[('counter increment with carry',M)],['gostcipher.new(..., MODE_CTR).encrypt/decrypt/.counter'],
[('_counter','next counter block',M)])
prop('C06','Padding of ECB and CBC is the selected GOST R 34.13-2015 procedure',
"Padding mode 1 appends the fewest zero bytes that complete the last block (none if it is complete) and padding mode 2 appends the byte 80 and the fewest zero bytes that complete the block, so stripping it recovers every message. The default is padding mode 1, and the amount appended depends only on the message length.",
['inputs','configurations'],'cipher x {ECB, CBC} x padding mode x message of any length and any trailing bytes (80, 00)',
'The tests pad one message per case.',
[M],[('padding procedures 1 and 2',M)],['decrypt(encrypt(m)) under ECB and CBC'])
prop('C07','MAC mode computes the OMAC of GOST R 34.13-2015 for any message',
"For every cipher, key, message (the empty one and those shorter than a block included) and tag size from 1 to the block size, MAC mode returns the leading bytes of the message authentication code GOST R 34.13-2015 prescribes; hexdigest is its hexadecimal form.",
['inputs'],'cipher x key (both values of the top bit in the subkey derivation) x message of any length x tag size',
'The tests use one key and messages of a few blocks; subkey derivation has four cases depending on the key, of which the examples reach one per cipher.',
[M],[('subkey derivation (doubling in GF(2^n))',M),('last block completion',M)],['gostcipher.new(..., MODE_MAC, data=...).digest/hexdigest'])
prop('C08','MAC depends only on the concatenation of updates; reading it is harmless',
"However a message is split over the constructor and update() calls (empty and short pieces included), the MAC equals that of the whole message. Calling digest() or hexdigest() at any point, any number of times and with any size, returns the MAC of the data so far and does not affect later results.",
['histories'],'sequences of update/digest/hexdigest with pieces of any length including zero',
'The tests update with two pieces of chosen sizes and read once.',
[M],[('buffered tail of update()',M),('digest works on a copy',M)],['gostcipher MAC objects: update/digest/hexdigest sequences'],
[('_iter_buf, _fin_buff, _prev_mac, _cur_mac','pending tail and chaining values',M)])
prop('C09','Invalid cipher parameters are refused with GOSTCipherError and only those',
"gostcipher.new raises GOSTCipherError (with the documented message) for an unknown algorithm or mode, a key that is not 32 bytes of bytes/bytearray, an unknown padding mode (ECB, CBC) and a vector that is not bytes/bytearray of a positive multiple of the block size (half a block for CTR); encrypt, decrypt and update raise it for data that are not bytes/bytearray and digest for a size above the block size. Every combination of valid parameters is accepted, and algorithm object identifiers and block sizes are those of the chosen cipher.",
['inputs','configurations'],'all combinations of valid and invalid algorithm, key, mode, vector, padding mode and data',
'The tests try a few fixed wrong values.',
[M],[('parameter checks of the constructors and methods',M)],['gostcipher.new, encrypt, decrypt, update, digest exceptions'])
prop('C10','After clear() nothing computed by the object depends on its key',
"After clear(), what a cipher object in ECB, CBC, CFB, OFB or CTR mode (or a bare block cipher object), an HMAC object or a PBKDF object computes from given later inputs is the same for any two original keys (passwords), the shift register of CBC, CFB and OFB being equal; a MAC object no longer produces the correct code, and a cleared pseudo-random generator refuses to generate until reset. No cleared object returns the result its key would have given.",
['inputs','histories'],'pairs of keys x call history before clear x call history after clear',
'The tests only check that the internal arrays changed.',
[B,M,HM,PB,R,U],[('clear() of each class',M),('zero_fill',U)],['outputs after clear() for two different keys'])
prop('C11','clear() leaves no key material in the object',
"After clear(), nothing reachable from a cipher object (any mode, or a bare block cipher), an HMAC, PBKDF or pseudo-random generator object (nor anything the modules and classes of the package keep) contains its key (password, seed), a part of 8 or more bytes of it, an iteration key or the padded HMAC key, whatever was called before. This is what clear() is documented for.",
['histories'],'all kinds of objects with a secret x cipher modes x histories x random secrets',
'The tests do not look into cleared objects.',
[B,M,HM,PB,R],[('clear() of the ciphers, HMAC, PBKDF and generator',B)],['clear() of all classes; everything reachable from the object afterwards'])
prop('C12','New modes can be built on the documented base classes',
"In a subclass of GOST34132015Cipher, GOST34132015CipherPadding or GOST34132015CipherFeedBack (or of the last two), the encrypt() and decrypt() of the base class hand over the data unchanged (with padding, exactly the selected padding procedure applied, on encryption only) and refuse data that are not bytes/bytearray, on every call. Constructors accept exactly the documented parameters, block_size, oid and iv are those of the object, and refusals raise GOSTCipherError with the documented message.",
['inputs','histories'],'base classes x cipher x key x vector x padding mode x sequences of encrypt/decrypt with valid and invalid data, valid and invalid constructor parameters',
'No test defines a mode of its own; the base classes are only reached through the five built-in modes.',
[M],[('validation and padding in the abstract encrypt()/decrypt()',M),('constructors of the base classes',M)],['subclasses of gostcrypto.gostcipher.gost_34_13_2015.GOST34132015Cipher, ...CipherPadding, ...CipherFeedBack'])
prop('H01','Streebog-256 and Streebog-512 digests are those of GOST R 34.11-2012',
"For every message of any length, digest() returns exactly the Streebog-256 or Streebog-512 value of GOST R 34.11-2012, as 32 or 64 bytes, and hexdigest() is its lower-case hexadecimal form.",
['inputs'],'messages of every length class: empty, below, at and above each block boundary, hundreds of blocks (length counter carries), and contents that carry in the 512-bit sum',
'The tests check the two messages of the standard and a few more; most table entries, length carries and checksum carries are not reached.',
[H],[('compression function and its tables',H),('length counter and checksum mod 2^512',H),('final padding',H)],['gosthash.new(name, data=...).digest/hexdigest'])
prop('H02','Hash of a message does not depend on how it is split over updates',
"For every message and every way of splitting it over the data argument of new() and update() calls (empty pieces and pieces ending exactly on block boundaries included), the digest equals that of the whole message passed at once.",
['histories'],'message x split into any number of pieces of any length, biased to the 64-byte block boundary',
'The tests use one or two hand-picked splits.',
[H],[('buffered tail of update()',H)],['gosthash objects: update sequences'],
[('_buff','bytes not yet hashed',H)])
prop('H03','Hash objects: digest is repeatable, copies independent, reset starts afresh',
"In any interleaving of update, digest, hexdigest, copy and reset over an object and its copies, each digest equals that of exactly the data its own object received since creation, copying or the last reset. Digests never change later results, a copy and its original never influence each other, and reset restores the state of a new object of the same algorithm.",
['histories'],'operation sequences over a family of objects of both algorithms',
'The tests exercise each method once in a fixed order.',
[H],[('digest works on a deep copy',H),('reset()',H)],['gosthash objects: update/digest/copy/reset histories'],
[('_buff, _hash_h, _hash_n, _hash_sigma','running state',H)])
prop('M01','HMAC values are those of R 50.1.113-2016 for every key and message',
"For every key of 0 to 64 bytes and every message including the empty one, the HMAC_GOSTR3411_2012_256 and _512 objects return exactly the code of R 50.1.113-2016 (HMAC over Streebog with 64-byte block, key padded with zeros), 32 or 64 bytes long, and hexdigest() is its hexadecimal form.",
['inputs'],'both algorithms x key length 0..64 x message of any length',
'The tests check one key of 32 bytes and one short message.',
[HM],[('key padding, inner and outer hash',HM)],['gosthmac.new(name, key, data=...).digest/hexdigest'])
prop('M02','HMAC objects honour any history of update, digest, copy and reset',
"In any interleaving of update, digest, hexdigest, copy and reset over an HMAC object and its copies, each result is the HMAC, under the original key, of exactly the data its own object received since creation, copying or the last reset, however split. Reading a result never changes later ones, and deleting or clearing one object never affects another.",
['histories'],'operation sequences over a family of HMAC objects, pieces of any length including zero',
'The tests exercise each method once in a fixed order.',
[HM],[('first update absorbs the key',HM),('reset() and copy()',HM)],['gosthmac objects: histories'],
[('_counter','whether the key has been absorbed',HM)])
prop('P01','PBKDF output is that of R 50.1.111-2016 for all parameters',
"For every password of 0 to 64 bytes, non-empty salt, iteration count of at least 1 and length, derive() returns exactly that many leading bytes of the PBKDF2 output of R 50.1.111-2016 with HMAC_GOSTR3411_2012_512.",
['inputs'],'password x salt x iterations x length from 0 to many 64-byte blocks (block counter above 255 included)',
'The tests check the published vectors, all with lengths up to 100 bytes.',
[PB],[('block function and block counter',PB)],['gostpbkdf.new(password, salt=, counter=).derive'])
prop('P02','PBKDF derivation is repeatable, prefix-consistent and uses the reported salt',
"On one PBKDF object any sequence of derive() and hexderive() calls returns values where the shorter is a prefix of the longer, hexderive is the hexadecimal form of derive, and repetition gives the same value. When no salt is given, 32 fresh random bytes of the operating system are used, are reported by the salt attribute, and a new object with that salt, the same password and count (1000 if not given) derives the same key.",
['histories','inputs'],'sequences of derive/hexderive calls with varying lengths; salts given, absent or empty',
'The tests make one call per object.',
[PB],[('state reset between derivations',PB),('salt generation',PB)],['gostpbkdf objects: derive/hexderive sequences, .salt'])
prop('R01','Generated sequences follow R 1323565.1.006-2017 across calls and resets',
"For every seed, output size and sequence of random() and reset() calls, the outputs are those of the generator of R 1323565.1.006-2017: successive Streebog-512 values of the 504-bit integer (seed followed by zeros) incremented once per 64-byte block, whole blocks first and the trailing bytes of one more block for the remainder. reset() with a seed restarts exactly as a new object with that seed, and without a seed fresh bytes of the operating system are used by new() and reset().",
['inputs','histories'],'seed size 32, 40, 48 (and others) x seed x output size 0 to several blocks x call sequence long enough for the counter to carry',
'The tests check a single first output per seed size.',
[R],[('counter increment',R),('assembly of the output from blocks',R)],['gostrandom.new(...).random/reset sequences'],
[('_rand_u','seed and counter',R)])
prop('R02','The generator stops at its counter limit and refuses a zero seed',
"However many values are requested, the counter never changes the seed bytes or wraps: once it is exhausted random() raises GOSTRandomError instead of returning, and until then no 64-byte block repeats. With an all-zero or cleared seed random() raises GOSTRandomError, and reset() with a valid seed makes the generator usable again.",
['histories'],'generators with small counter fields driven past the limit; zero seeds; clear and reset in any order',
'Reaching the limit takes more calls than any test makes; the test replaces the limit by zero.',
[R],[('counter limit check',R),('zero seed check',R)],['gostrandom.new(..., size_s=...).random until exhaustion'])
prop('S01','Signatures are the GOST R 34.10-2012 ones and always verify',
"For every built-in parameter set, private key d, digest and random value k with 0 < k < q, sign() returns r || s with r = x(kP) mod q and s = (r d + k e) mod q as fixed-length big-endian halves (e is the digest mod q, or 1 if that is 0), and a random value outside that range or one for which r or s is zero is refused. Every signature, with k given or generated, is accepted by verify() with the public key of d and the same digest.",
['inputs','configurations'],'seven parameter sets x private key (1, q-1, above q, random) x digest (0, q, above q, random) x k (1, small, q-1, random, solving r or s with leading zero bytes)',
'The tests sign one digest per curve with one k.',
[S],[('signature equation and encodings',S),('scalar multiplication',S)],['gostsignature.new(...).sign/verify/public_key_generate'])
prop('S02','verify() accepts exactly the signatures GOST R 34.10-2012 accepts',
"For every parameter set, public key that is a point of the subgroup of order q, digest and 64- or 128-byte string, verify() returns True if and only if the verification equation of GOST R 34.10-2012 holds (0 < r, s < q, point not at infinity). A public key that is not a point of the curve in canonical form, the all-zero key included, is refused with GOSTSignatureError, never replaced or accepted.",
['inputs','configurations'],'genuine, bit-flipped, swapped, complemented, shifted by q, out-of-range and specially constructed (doubling, point at infinity, zero coordinate) signatures and keys',
'The tests verify a handful of genuine and a few corrupted signatures; exceptional points of the addition law are never reached.',
[S],[('range check of r and s',S),('public key check',S),('point addition and doubling',S)],['gostsignature.new(...).verify'])
prop('S03','Public keys are d times the base point for every private key',
"For every parameter set and every private key that is not a multiple of q, public_key_generate() returns x || y, fixed-length big-endian, of the point (d mod q) P, which satisfies the curve equation. A multiple of q is refused with GOSTSignatureError by public_key_generate() and sign().",
['inputs','configurations'],'seven parameter sets x private keys 1, 2, small, sparse, q-1, q, q+1, above q and random; coordinates with leading zero bytes',
'The tests check the key pairs of the standard.',
[S],[('scalar multiplication',S),('encoding of coordinates',S)],['gostsignature.new(...).public_key_generate'])
prop('S04','The random value of a signature is fresh, in range and never used if unusable',
"When no random value is passed, each sign() call takes a new value of full size from the operating system and uses it unreduced: values that are zero, not below q, or that give r = 0 or s = 0 are discarded and drawn again, and the signature is the one of the first usable value. sign() always terminates, and two calls never share a random value.",
['fault_sequences','inputs'],'scripts of operating-system random outputs mixing zero, q, above q, all ones, unusable and usable values x parameter set x key x digest x repeated calls',
'os.urandom returns unusable values with negligible probability, and the tests mock it once.',
[S],[('generation of k by rejection',S)],['gostsignature.new(...).sign with a scripted os.urandom'])
prop('S05','Curve parameters are validated and the built-in sets are sound',
"new() accepts every built-in parameter set under its own mode, and each built-in set is mathematically valid (p and q prime, point on the non-singular curve, of order q, m a multiple of q, within the standard's bounds) and equal to the published constants. new() raises GOSTSignatureError for an unknown mode and for parameters where m equals p, the base point is off the curve, q is outside the range of the mode, or p^t = 1 (mod q) for some t up to 31 (131 for the 512-bit mode).",
['inputs','configurations'],'built-in sets, single-parameter mutations of them, constructed curves that violate exactly one condition, constructed valid curves, missing parameters',
'The tests try three broken dictionaries; no test builds a curve that violates only the p^t condition.',
[S],[('curve checks of the constructor',S),('built-in parameter dictionary',S)],['gostsignature.new and CURVES_R_1323565_1_024_2019'])
prop('S06','Twisted Edwards parameters are equivalent to the canonical ones',
"A parameter set given only in twisted Edwards form (e, d, u, v with p, m, q) behaves exactly like the corresponding set in canonical form: the same public keys and signatures, and each verifies the signatures of the other. This holds for the built-in Edwards sets and for any Edwards curve with a valid base point.",
['inputs','configurations'],'the two built-in Edwards sets with other base points, and random Edwards curves whose canonical image satisfies the checks, x keys x digests x random values',
'The tests compare one converted set with constants.',
[S],[('Edwards to canonical conversion',S)],['gostsignature.new with Edwards-only parameters'])
prop('O01','OID encodings are the DER encodings, for every valid OID',
"For every dotted OID with valid arcs of any size and number, digit is the tuple of its arcs, octet is exactly its DER encoding (tag 06, definite length, base-128 arcs), so decoding it gives the OID back and different OIDs have different encodings; str() returns the dotted form.",
['inputs'],'first arc 0, 1, 2 x second arc (any size under 2) x further arcs around every power of 2^7, of any number (long-form lengths included)',
'The tests encode a few TC 26 OIDs, all with arcs below 2^14.',
[O],[('base-128 and length encoding',O)],['gostoid.ObjectIdentifier(...).digit/octet/str'])
prop('O02','Malformed OIDs are refused; names and algorithm OIDs match the TC 26 registry',
"For a string that is not an OID (empty or non-numeric arcs, negative arcs, a single arc, first arc above 2, second arc above 39 under 0 or 1) encoding it raises GOSTOIDError and nothing else. Names are the documented TC 26 names (unique, plain ASCII, empty string for unregistered OIDs), and the oid attribute of every hash, HMAC, cipher and signature object is the registered OID of that algorithm.",
['inputs','configurations'],'mutations of valid OIDs and generated malformed strings; all registered OIDs and random unregistered ones; all algorithms',
'The tests try three malformed strings and look up a few names.',
[O,H,HM,B,S],[('validation in digit/octet',O),('name table',O)],['gostoid.ObjectIdentifier, OBJECT_IDENTIFIER_TC26, .oid attributes'])
prop('I01','Objects are isolated from each other and from their callers\' buffers',
"No call modifies a buffer, curve dictionary or constant passed to it or exported by the package, and later changes a caller makes to a buffer or parameter dictionary it passed in, or to a value it got back, do not affect the object. Any number of objects of any kinds used in any interleaving give the results each would give alone.",
['histories'],'interleaved operation sequences over objects of all modules, with the caller overwriting its input and output buffers after each call',
'Each test uses one object at a time and does not look at its buffers afterwards.',
[H,HM,M,B,PB,R,S],[('copies taken on input and output',M),('no module-level mutable state',M)],['all modules: interleaved histories with buffer mutation'])
prop('I02','Documented misuse raises the module\'s own exception and nothing else',
"In the hash, HMAC, PBKDF, random and signature modules every documented invalid argument (unsupported name or mode; key, password, salt, seed, digest, signature, private or public key or data of a wrong type or length; over-long derived key) raises that module's documented exception with its documented message, and nothing else, not even when the refused object is destroyed. Valid arguments at the limits of those ranges are accepted.",
['inputs'],'every documented argument x wrong types x wrong lengths, and the boundary values on the valid side',
'The tests try one or two wrong values per argument.',
[H,HM,PB,R,S],[('argument checks',S)],['exceptions of gosthash, gosthmac, gostpbkdf, gostrandom, gostsignature'])
prop('I03','bytes and bytearray arguments are interchangeable everywhere',
"Every documented byte argument of every module may be bytes or bytearray, in any combination across arguments and calls, with identical results. Results (the iv and counter attributes included) are bytearray objects of the documented length, or str for the hexadecimal variants.",
['inputs','histories'],'all modules x every combination of argument types x call sequences mixing both',
'The tests pass almost only bytearray.',
[H,HM,M,B,PB,R,S],[('conversion on input',M)],['all modules: same call with bytes and bytearray'])
prop('I04','A refused call leaves hash, HMAC, generator and signature objects intact',
"When update(), reset() with a bad seed, sign(), verify() or derive() is refused because of its arguments, or a constructor is refused, the object (or any other object) afterwards behaves exactly as if the refused call had not been made.",
['histories','fault_sequences'],'operation histories with refused calls inserted at any position, compared with the history without them',
'No test continues to use an object after an exception.',
[H,HM,PB,R,S],[('arguments are checked before state changes',H)],['histories of gosthash, gosthmac, gostpbkdf, gostrandom, gostsignature objects with refused calls'])
prop('I05','Objects used in different threads do not disturb each other',
"When each object is used by one thread only, every thread gets the results its objects would give alone, under every interleaving of the threads. The modules keep no state outside their objects that an operation in another thread could change.",
['schedules'],'2 to 4 threads with objects of the same or of different kinds x operation sequences x switching points at any source line of the package',
'The tests are single-threaded, and the interpreter switches threads too rarely for a race to show by chance.',
[H,HM,M,B,PB,R,S],[('working variables are local to the call or to the object',H)],['all modules: one object per thread, results under a controlled schedule'])
prop('I06','Nothing depends on how the interpreter was started',
"Every operation of every module behaves the same, and as the other properties say, whether or not assertions and docstrings are stripped (-O, -OO), in development and isolated mode, for every hash seed and locale, with the garbage collector off or constantly running, and in the main thread or another one.",
['inputs','histories'],'interpreter flags x environment x operation sequences of all modules',
'The tests run in one configuration, with assertions on.',
[H,HM,M,B,PB,R,S],[('no work in assertions, no dependence on set order',M)],['all modules: the same operations in interpreters started differently'])
prop('I07','Operations of other objects may interrupt an operation in the same thread',
"While an operation of one object is running, operations of other objects may run to their end in the same thread, at any point of it and any number of times, as they do when a signal handler, a destructor run by the garbage collector or a tracing hook uses the package; other objects may also be made and destroyed there. Both the interrupted operation and the interrupting ones give exactly the results they give alone, and both come to an end.",
['schedules','histories'],'objects of the same or of different kinds x operation sequences x points of the interrupted operation (any source line of the package)',
'No test runs one operation inside another.',
[H,HM,M,B,PB,R,S],[('working variables are local to the call or to the object',H),('no module-wide scratch space or lock',B)],['all modules: operations of other objects nested inside an operation'])
prop('F01','A failing system random source stops the call; nothing weaker is used',
"When the operating system fails to give random bytes, at the first or any later request, sign() without a random value, a PBKDF object without a salt, and a generator or reset() without a seed raise and return nothing: no fixed, remembered or weaker value takes the place of the missing one. Other objects, and the object whose call failed, afterwards behave exactly as if that call had not been made.",
['fault_sequences','histories'],'histories of calls that need random bytes x failing requests x kinds of failure x values that are not usable before the failure',
'The tests always run with a working random source.',
[S,PB,R],[('random value of a signature',S),('default salt',PB),('default seed',R)],['gostsignature sign(), gostpbkdf.new(), gostrandom.new()/reset() with os.urandom failing'])
prop('U01','The helper functions of gostcrypto.utils are exact for all byte strings',
"compare() is equality and compare_to_zero() is being all zeros for byte strings of any length and content, add_xor() is the byte-wise xor over the shorter length, and zero_fill() gives as many zero bytes. bytearray_to_int() and int_to_bytearray() are the big-endian conversions (inverse to each other where the number fits), msb() tells whether the top bit is set, and check_value() accepts byte strings of exactly the given size; none of them changes its argument.",
['inputs'],'pairs of byte strings that are equal, differ in one or many bytes or in length; integers of any size',
'The functions are only exercised through the examples of the standards, where almost no comparison fails.',
[U],[('constant-time comparison by accumulating differences',U),('integer conversion',U)],['gostcrypto.utils functions'])
prop('U02','Comparisons do not stop early, wherever the operands differ',
"compare() of two byte strings of equal length and compare_to_zero() do the same amount of work wherever the differing (non-zero) bytes are: the documentation promises comparison in constant time to prevent timing attacks. So the number of steps executed is the same for all arrangements of the same byte pairs.",
['inputs'],'pairs of byte strings of 2 to 140 bytes with one to all bytes differing, in several arrangements of the same byte pairs',
'The tests look at results, which a comparison that stops at the first difference returns as well.',
[U],[('differences are accumulated over the whole length',U)],['gostcrypto.utils.compare, compare_to_zero: executed steps'])
prop('X01','Results of any module can be handed to any other and stay what they are',
"Any byte string a module returns (digest, code, derived key, random value, ciphertext, plaintext, vector, counter, salt, signature, public key) can be passed without copying as key, password, salt, seed, vector, message, digest, private key, random value or signature to any other call, also as several arguments of one call, with the result the standards give for its bytes. Values once returned never change, whatever is later computed, cleared or deleted.",
['histories','inputs'],'sequences of calls over all modules in which arguments are the very objects returned by earlier calls, with objects cleared or deleted at any point',
'Each test module uses one module with literals; no result is passed on, and none is looked at again later.',
[H,HM,M,B,PB,R,S],[('results are new objects, arguments are copied',M)],['all modules: results fed to other modules, all values compared after every step'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=True)+'\n' for p in P))
print(len(P))
