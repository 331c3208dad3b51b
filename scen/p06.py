"""OFB mode."""
from scen.modescommon import calls, roundtrip, build   # noqa: F401

ENCODED = ('gost_34_13_2015: new and the ofb class with its base classes, gost_34_12_2015 ciphers, '
           'utils')
BOUNDS = {
    'quick': 'all keys, vectors and data contents; every length 0..2 blocks+1 (Kuznyechik above '
             'one block: lengths near block boundaries), vectors of 1..4 and 7 blocks, sequences of up '
             'to 5 calls; one message of 17 blocks with a fixed '
             'key, and one of 300 blocks with fixed key, vector and leading data',
    'thorough': 'all keys, vectors and data contents; every length 0..6 blocks+1, vectors of '
                '1..6 and 9 blocks, sequences of up to 6 calls; messages up to 40 blocks with a '
                'fixed key, and of 1030 blocks with fixed key, vector and leading data',
}


def scenarios(tier):
    return build('ofb', tier)
