CHECKS = {}


def check(id, src, quick=100000, thorough=None, qs=200, ts=600, **kw):
    kw.update(src=[src] if isinstance(src, str) else src,
              quick={"cases": quick, "seconds": qs},
              thorough={"cases": thorough or quick * 20, "seconds": ts})
    CHECKS[id] = kw


check("C01", "c01_hash.c", quick=20000)
check("C02", "c02_hash_order.c", quick=20000)
check("C03", "c03_hash_own.c", quick=20000)
check("C04", "c04_array.c", quick=20000)
check("C05", "c05_array_life.c", quick=20000)
check("C06", "c06_buffer.c", quick=20000)
check("C07", "c07_pretty.c", quick=20000)
check("C08", "c08_slice.c", quick=20000)
check("C09", "c09_managed.c", quick=20000)
check("C10", "c10_dllist.c", quick=20000)
check("C11", "c11_ring.c", quick=20000)
check("C12", "c12_bitset.c", quick=10000)
check("C13", "c13_mempool.c", quick=10000)
check("C14", "c14_gc.c", quick=2000)
check("C15", "c15_alloc.c", quick=2000)
check("C16", "c16_error.c", quick=20000)
check("C17", "c17_ip.c", quick=100000)
check("C18", "c18_cidr.c", quick=100000)
U128 = [{"name": "native"}, {"name": "fallback", "cflags": ["-DCORK_CONFIG_HAVE_GCC_INT128=0", "-DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0"]}]
check("C19", "c19_u128.c", quick=50000, variants=U128)
check("C20", "c20_u128print.c", quick=30000, variants=U128)
check("C21", "c21_hashval.c", quick=20000, lib=["acct.c", "util.c"], tools=[{"name": "cork-hash", "src": ["src/cork-hash/cork-hash.c"]}])
check("C22", "c22_byteorder.c", quick=60000)
check("C23", "c23_timestamp.c", quick=100000)
check("C24", "c24_tsformat.c", quick=40000)
check("C25", "c25_paths.c", quick=40000)
check("C26", "c26_pathlist.c", quick=30000)
FSX = ["acct.c", "fsx.c"]
check("C27", "c27_file_create.c", quick=3000, lib=FSX, ldflags=["-Wl,--wrap=mkdir"])
check("C28", "c28_remove.c", quick=2500, lib=FSX, ldflags=["-Wl,--wrap=unlink,--wrap=rmdir,--wrap=readdir"])
check("C29", "c29_walk.c", quick=3000, lib=FSX, ldflags=["-Wl,--wrap=opendir,--wrap=closedir,--wrap=readdir"])
check("C30", "c30_consume.c", quick=30000, lib=FSX, ldflags=["-Wl,--wrap=read,--wrap=open"])
check("C31", "c31_produce.c", quick=30000, lib=FSX, ldflags=["-Wl,--wrap=write,--wrap=open,--wrap=close"])
check("C32", "c32_env.c", quick=18000)
check("C33", "c33_exec.c", quick=1500, lib=["acct.c", "fsx.c", "util.c"], helpers=["rep"])
SUBP = dict(lib=["acct.c", "fsx.c", "util.c"], helpers=["kid"], ldflags=["-Wl,--wrap=read,--wrap=write,--wrap=pipe,--wrap=pipe2,--wrap=fork,--wrap=waitpid,--wrap=usleep"])
check("C34", "c34_subprocess.c", quick=800, **SUBP)
check("C35", "c35_groups.c", quick=400, **SUBP)
SCHED_WRAPS = "-Wl," + ",".join("--wrap=" + f for f in (
    "pthread_create pthread_join pthread_setname_np pthread_mutex_lock pthread_mutex_unlock pthread_spin_lock pthread_rwlock_rdlock pthread_rwlock_wrlock "
    "pthread_rwlock_unlock sem_wait pthread_cond_wait pthread_once sched_yield usleep nanosleep sleep").split())
NOKEYS = ["-DCORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0"]
TSAN = ["-fsanitize=thread"]
SCHED = dict(lib=["acct.c", "schedule.c"], ldflags=[SCHED_WRAPS],
             variants=[{"name": "tls", "san": TSAN}, {"name": "keys", "san": TSAN, "cflags": NOKEYS}])
check("C36", "c36_threads.c", quick=3000, **SCHED)
check("C37", "c37_once.c", quick=8000, **SCHED)
check("C38", "c38_cleanup.c", quick=3000)
check("C39", "c39_cli.c", quick=3000)
check("C40", "c40_independent.c", quick=2500, **SCHED)
check("C41", "c41_units.c", quick=40, thorough=3000, lib=["acct.c", "util.c"])
