"""Which harness runs decide which property, and the sanitizer variants."""

_ASAN = ["-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=alignment,shift-base,vptr",
         "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    "asan": {"cxx": "g++", "cflags": _ASAN, "ldflags": []},
    "tsan": {"cxx": "g++", "cflags": ["-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=thread"], "ldflags": []},
    "plain": {"cxx": "g++", "cflags": ["-O2", "-g1", "-w"], "ldflags": []},
}
WRAP_PT = ["-Wl," + ",".join("--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_timedwait",
                                                        "pthread_cond_signal", "pthread_cond_broadcast"))]

SPECS = {}
def spec(id, *runs, **kw):
    SPECS[id] = dict(runs=list(runs), **kw)
def R(harness, variant, budget=8, **kw):
    return dict(harness=harness, variant=variant, budget=budget, **kw)

spec("C01", R("c01_mutex", "asan", 6, link=WRAP_PT), R("c01_mutex", "tsan", 8, link=WRAP_PT))
spec("C02", R("c02_cond", "asan", 8, link=WRAP_PT), R("c02_cond", "tsan", 8, link=WRAP_PT))
WRAP_RW = WRAP_PT + ["-Wl," + ",".join("--wrap=" + f for f in ("pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"))]
spec("C03", R("c03_rw", "asan", 8, link=WRAP_RW), R("c03_rw", "tsan", 8, link=WRAP_RW))
spec("C04", R("c04_pcbuf", "asan", 9, link=WRAP_PT), R("c04_pcbuf", "tsan", 8, link=WRAP_PT))
spec("C05", R("c05_chan", "asan", 8, link=WRAP_PT), R("c05_chan", "tsan", 8, link=WRAP_PT))
spec("C06", R("c06_mvar", "asan", 8, link=WRAP_PT), R("c06_mvar", "tsan", 8, link=WRAP_PT))
spec("C07", R("c07_qsem", "asan", 7, link=WRAP_PT), R("c07_qsem", "tsan", 7, link=WRAP_PT))
WRAP_TH = WRAP_PT + ["-Wl,--wrap=pthread_create,--wrap=pthread_join,--wrap=pthread_detach,--wrap=nanosleep"]
spec("C08", R("c08_thread", "asan", 8, link=WRAP_TH), R("c08_thread", "tsan", 8, link=WRAP_TH))
spec("C12", R("c12_code", "asan", 12))
spec("C13", R("c13_base64", "asan", 8))
spec("C14", R("c14_md5", "asan", 10), R("c14_md5", "plain", 30))
spec("C15", R("c15_lru", "asan", 10))
spec("C17", R("c17_search", "asan", 20))
spec("C18", R("c18_algo", "asan", 10))
spec("C20", R("c20_strutil", "asan", 10))
spec("C10", R("c10_archive", "asan", 20, cflags=["-std=c++14"]))
spec("C11", R("c11_corrupt", "asan", 12, cflags=["-std=c++14"]))
spec("C16", R("c16_intern", "asan", 9))
spec("C21", R("c21_sparse", "asan", 12, link=["-Wl,--wrap=_ZN3pfi6system7sysstat11get_sysstatERNS1_11sysstat_retE"]))
spec("C22", R("c22_fenwick_config", "asan", 12))
spec("C19", R("c19_utf8", "asan", 18))
spec("C23", R("c23_owning", "asan", 10, link=WRAP_PT), R("c23_owning", "tsan", 8, link=WRAP_PT))
spec("C24", R("c24_csv", "asan", 11))
spec("C25", R("c25_jsonprint", "asan", 11))
spec("C26", R("c26_jsonparse", "asan", 24))
spec("C27", R("c27_jsoncast", "asan", 16))
spec("C28", R("c28_jsonhandle", "asan", 14))
spec("C29", R("c29_xhtml", "asan", 13))
spec("C30", R("c30_random", "asan", 10))
spec("C31", R("c31_fft", "asan", 10))
spec("C32", R("c32_ratio_vector", "asan", 10, cflags=["-std=c++14", "-O0"]))
spec("C33", R("c33_time", "asan", 9))
spec("C34", R("c34_files", "asan", 11, link=["-Wl,--wrap=open,--wrap=open64,--wrap=fstat,--wrap=mmap"]))

spec("C35", R("c35_uri", "asan", 11))
spec("C43", R("c43_ipv4", "asan", 6))
NET_WRAP = ["-Wl,--wrap=recv,--wrap=send,--wrap=socket,--wrap=accept,--wrap=close"]
spec("C36", R("c36_socket", "asan", 14, link=NET_WRAP + ["-Wl,--wrap=bind,--wrap=listen,--wrap=setsockopt,--wrap=getsockname"]))
spec("C37", R("c37_sockstream", "asan", 12, link=NET_WRAP))
spec("C38", R("c38_http", "asan", 16, link=NET_WRAP))
DNS_WRAP = NET_WRAP + ["-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo,--wrap=time,--wrap=gettimeofday,--wrap=clock_gettime"]
spec("C40", R("c40_dns", "asan", 9, link=DNS_WRAP), R("c40_dns", "tsan", 9, link=DNS_WRAP))
spec("C39", R("c39_rpc", "asan", 14, link=NET_WRAP), R("c39_rpc", "tsan", 10, link=NET_WRAP, env={"VH_NOSTOP": "1"}))
MP_WRAP = NET_WRAP + ["-Wl,--wrap=read,--wrap=write"]
spec("C51", R("c51_mprpc", "asan", 18, link=MP_WRAP), R("c51_mprpc", "tsan", 10, link=MP_WRAP, env={"VH_NOSTOP": "1"}))
spec("C41", R("c41_cgi", "asan", 13))
spec("C42", R("c42_server", "asan", 12, link=NET_WRAP), R("c42_server", "tsan", 10, link=NET_WRAP))
spec("C09", R("c09_independent", "tsan", 18))
spec("C52", R("c52_fcgi", "asan", 11, link=["-lfcgi"]))
spec("C50", R("c50_db", "asan", 13, cflags=["-std=c++14"]))
spec("C53", R("c53_tx", "asan", 13, cflags=["-std=c++14"]))
