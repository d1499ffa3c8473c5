"""Standard curves (SEC 2, FIPS 186): (name, field, a, b)."""
FP = [
    ("secp112r1",((1<<128)-3)//76439,-3,0x659EF8BA043916EEDE8911702B22),
    ("secp128r1",2**128-2**97-1,-3,0xE87579C11079F43DD824993C2CEE5ED3),
    ("secp160k1",2**160-2**32-21389,0,7),
    ("secp160r1",2**160-2**31-1,-3,0x1C97BEFC54BD7A8B65ACF89F81D4D4ADC565FA45),
    ("secp192k1",2**192-2**32-4553,0,3),
    ("P-192",2**192-2**64-1,-3,0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1),
    ("secp224k1",2**224-2**32-6803,0,5),
    ("P-224",2**224-2**96+1,-3,0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4),
    ("secp256k1",2**256-2**32-977,0,7),
    ("P-256",2**256-2**224+2**192+2**96-1,-3,0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b),
    ("P-384",2**384-2**128-2**96+2**32-1,-3,0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef),
    ("P-521",2**521-1,-3,0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00),
]

F2M = [
    ("sect113r1",[113,9],0x003088250CA6E7C7FE649CE85820F7,0x00E8BEE4D3E2260744188BE0E9C723),
    ("sect131r1",[131,8,3,2],0x07A11B09A76B562144418FF3FF8C2570B8,0x0217C05610884B63B9C6C7291678F9D341),
    ("sect163k1",[163,7,6,3],1,1),
    ("sect163r2",[163,7,6,3],1,0x20A601907B8C953CA1481EB10512F78744A3205FD),
    ("sect233k1",[233,74],0,1),
    ("sect233r1",[233,74],1,0x66647EDE6C332C7F8C0923BB58213B333B20E9CE4281FE115F7D8F90AD),
    ("sect239k1",[239,158],0,1),
    ("sect283k1",[283,12,7,5],0,1),
    ("sect283r1",[283,12,7,5],1,0x027B680AC8B8596DA5A4AF8A19A0303FCA97FD7645309FA2A581485AF6263E313B79A2F5),
    ("sect409k1",[409,87],0,1),
    ("sect571k1",[571,10,5,2],0,1),
]
