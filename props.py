"""Which harness, builds and case counts decide each property."""
def R(config, quick, thorough, **kw):
    d = {"config": config, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d
HEAPW = ["malloc", "calloc", "realloc", "free"]
SODIUMW = ["crypto_generichash_blake2b", "crypto_generichash_blake2b_salt_personal", "crypto_hash_sha512", "crypto_stream_chacha20_xor_ic", "crypto_stream_chacha20_ietf_xor", "crypto_aead_chacha20poly1305_ietf_encrypt", "crypto_aead_chacha20poly1305_ietf_decrypt",
           "crypto_generichash", "crypto_generichash_final", "crypto_generichash_update", "crypto_generichash_blake2b_final", "crypto_generichash_blake2b_update", "crypto_hash_sha512_final", "crypto_hash_sha512_update", "crypto_stream_chacha20", "crypto_stream_chacha20_xor", "crypto_stream_chacha20_ietf", "crypto_stream_chacha20_ietf_xor_ic"]
PROPS = {
    "C01": {"src": ["c01.cpp"], "fuzz": 300, "runs": [R("asan", 60000, 600000, long=1), R("nolock", 60000, 400000, giant=1)]},
    "C02": {"src": ["c02.cpp"], "fuzz": 300, "runs": [R("asan", 80000, 900000), R("rel", 80000, 900000, long=1)]},
    "C04": {"src": ["c04.cpp"], "fuzz": 300, "runs": [R("asan", 90000, 900000), R("rel", 60000, 600000, giant=2)]},
    "C05": {"src": ["c05.cpp"], "fuzz": 300, "runs": [R("asan", 50000, 600000, long=1), R("nolock", 20000, 200000, giant=1)]},
    "C06": {"src": ["c06.cpp"], "fuzz": 300, "runs": [R("asan", 16000, 300000, long=1), R("nolock", 16000, 200000, giant=1)]},
    "C03": {"src": ["c03.cpp", "testkeys.cpp"], "wraps": ["randombytes", "randombytes_buf", "randombytes_random", "randombytes_uniform"], "runs": [R("rel", 6000, 60000, long=1), R("nolock", 6000, 60000), R("asan", 2000, 20000)]},
    "C07": {"src": ["c07.cpp"], "fuzz": 300, "runs": [R("asan", 40000, 600000, long=1), R("nolock", 40000, 300000, giant=1)]},
    "C08": {"src": ["c08.cpp"], "fuzz": 300, "runs": [R("asan", 60000, 600000), R("clang", 60000, 600000, long=1, giant=1)]},
    "C09": {"src": ["c09.cpp"], "fuzz": 300, "runs": [R("asan", 40000, 400000), R("rel", 40000, 400000, long=1)]},
    "C10": {"src": ["c10.cpp"], "fuzz": 300, "runs": [R("asan", 6000, 200000), R("rel", 10000, 200000, long=1)]},
    "C11": {"src": ["c11.cpp"], "fuzz": 300, "runs": [R("asan", 6000, 200000), R("rel", 10000, 200000, long=1)]},
    "C12": {"src": ["c12.cpp"], "fuzz": 300, "runs": [R("asan", 15000, 300000), R("rel", 15000, 300000)]},
    "C13": {"src": ["c13.cpp", "wrapobj.cpp", "testkeys.cpp"], "fuzz": 300, "runs": [R("asan", 6000, 150000), R("rel", 10000, 200000, long=1)]},
    "C14": {"src": ["c14.cpp", "wrapobj.cpp", "testkeys.cpp"], "fuzz": 300, "runs": [R("asan", 20000, 200000), R("rel", 40000, 400000, long=1)]},
    "C15": {"src": ["c15.cpp", "testkeys.cpp"], "fuzz": 300, "runs": [R("asan", 2000, 40000), R("rel", 5000, 150000, long=1)]},
    "C16": {"src": ["c16.cpp", "testkeys.cpp"], "fuzz": 300, "runs": [R("asan", 1000, 20000), R("rel", 3000, 50000, long=1)]},
    "C17": {"src": ["c17.cpp", "testkeys.cpp"], "fuzz": 600, "runs": [R("asan", 12000, 150000), R("rel", 12000, 150000)]},
    "C18": {"src": ["c18.cpp", "heap.cpp", "testkeys.cpp"], "wraps": HEAPW + SODIUMW, "fuzz": 300, "runs": [R("asan", 8000, 200000), R("rel", 24000, 500000, env={"LD_BIND_NOW": "1"}), R("nolock", 15000, 300000, env={"LD_BIND_NOW": "1"})]},
    "C19": {"src": ["c19.cpp", "testkeys.cpp"], "fuzz": 300, "runs": [R("asan", 12000, 200000), R("rel", 20000, 400000), R("nolock", 12000, 300000), R("debug", 6000, 100000)]},
    "C20": {"src": ["c20.cpp"], "fuzz": 600, "runs": [R("asan", 30000, 800000), R("rel", 120000, 3000000), R("clang", 60000, 1000000), R("limb32", 30000, 800000), R("noasm", 30000, 800000), R("noudbl", 30000, 800000)]},
    "C21": {"src": ["c21.cpp", "heap.cpp", "testkeys.cpp"], "wraps": HEAPW, "fuzz": 300, "runs": [R("asan", 300000, 4000000), R("rel", 400000, 4000000, long=1)]},
    "C22": {"src": ["c22.cpp"], "fuzz": 300, "runs": [R("asan", 1500000, 9000000), R("rel", 1500000, 15000000, giant=4, case_cpu=6)]},
    "C23": {"src": ["c23.cpp", "prog.cpp", "testkeys.cpp"], "servers": ["debug", "nolock", "clang", "uchar", "pattern", "limb32", "noasm", "native"], "runs": [R("rel", 9000, 150000, budget=300)]},
    "C24": {"src": ["c24.cpp"], "fuzz": 300, "fuzzcfg": "relicfuzz", "runs": [R("relic", 20000, 600000), R("relicrel", 60000, 1500000)]},
    "C25": {"sched": 1, "src": ["c25.cpp", "prog.cpp", "testkeys.cpp"], "runs": [R("tsan", 1200, 40000, defs=["-DPBT_NO_TRACK"], out="C25t", workers=5, giant=2), R("rel", 2000, 100000, workers=4, giant=8), R("asan", 800, 20000, workers=5)]},
    "C26": {"src": ["c26.cpp", "heap.cpp", "wrapobj.cpp", "testkeys.cpp"], "wraps": HEAPW, "fuzz": 300, "runs": [R("asan", 2400, 60000), R("nolock", 6000, 120000)]},
    "C27": {"src": ["c27.cpp", "prog.cpp", "heap.cpp", "testkeys.cpp"], "wraps": HEAPW + ["sodium_runtime_has_aesni", "sodium_runtime_has_neon"], "fuzz": 300, "runs": [R("asan", 6000, 150000), R("rel", 16000, 400000), R("nolock", 10000, 300000)]},
}
