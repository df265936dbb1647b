# A time-bounded subset of each check's first unit under valgrind memcheck: reads of
# uninitialised memory (invisible to ASan and UBSan) and definite leaks.
# Loaded after every other file here (CHECKS is filled in by then).
MEMCHECK = ["P%02d" % i for i in list(range(5, 25)) + [26] + list(range(28, 49))]
SECONDS = {}

for pid in MEMCHECK:
    first = CHECKS[pid]["units"][0]
    keep = {k: v for k, v in first.items()
            if k in ("libs", "flags", "real_matrix_functions", "ldflags", "env")}
    CHECKS[pid]["units"].append(unit(
        "memcheck", first["src"], "memcheck", shards=1, hang_s=300,
        args=["--small", "--budget", str(SECONDS.get(pid, 14))], **keep))
