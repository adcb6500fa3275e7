# property -> harness, build flavor, numbers of cases (quick, thorough), fuzz seconds (thorough)
CFG = {
    "C01": [dict(harness="h_report", quick=60000, thorough=2000000, fuzz=600),
            dict(harness="h_client", quick=30000, thorough=1000000, hang=10)],
    "C02": [dict(harness="h_report", quick=60000, thorough=2000000, fuzz=600),
            dict(harness="h_client", quick=30000, thorough=1000000, hang=10)],
    "C03": dict(harness="h_opmerge", quick=120000, thorough=5000000, fuzz=600),
    "C04": [dict(harness="h_check", quick=100000, thorough=4000000, fuzz=600),
            dict(harness="h_client", quick=30000, thorough=1000000, hang=10)],
    "C05": [dict(harness="h_check", quick=100000, thorough=4000000, fuzz=600),
            dict(harness="h_client", quick=30000, thorough=1000000, hang=10)],
    "C06": [dict(harness="h_quota", quick=120000, thorough=6000000, fuzz=600),
            dict(harness="h_client", quick=30000, thorough=1000000, hang=10)],
    "C07": [dict(harness="h_quota", quick=120000, thorough=6000000, fuzz=600),
            dict(harness="h_client", quick=30000, thorough=1000000, hang=10)],
    "C08": [dict(harness="h_quota", quick=120000, thorough=6000000, fuzz=600),
            dict(harness="h_client", quick=30000, thorough=1000000, hang=10)],
    "C13": dict(harness="h_sig", quick=1500000, thorough=30000000, fuzz=600),
    "C14": dict(harness="h_dist", quick=400000, thorough=20000000, fuzz=300),
    "C15": dict(harness="h_dist", quick=1500000, thorough=20000000, fuzz=300),
    "C16": [dict(harness="h_money", quick=6000000, thorough=100000000, fuzz=300),
            dict(harness="h_money", flavor="release", quick=1000000, thorough=10000000)],
    "C17": [dict(harness="h_lru", quick=1000000, thorough=10000000, fuzz=600),
            dict(harness="h_lru", flavor="release", quick=200000, thorough=2000000)],   # without assertions
    "C18": [dict(harness="h_lru", quick=1000000, thorough=10000000, fuzz=600),
            dict(harness="h_lru", flavor="release", quick=200000, thorough=2000000)],   # without assertions
    "C19": [dict(harness="h_md5", quick=1500000, thorough=30000000, fuzz=300),
            dict(harness="h_md5", flavor="release", quick=300000, thorough=3000000)],
    "C09": dict(harness="h_client", quick=80000, thorough=4000000, fuzz=600, hang=10),
    "C10": dict(harness="h_client", quick=80000, thorough=4000000, fuzz=600, hang=10),
    "C11": [dict(harness="h_client", quick=80000, thorough=4000000, fuzz=600, hang=10),
            dict(harness="h_threads", flavor="sched", quick=8000, thorough=300000, hang=60)],
    "C12": [dict(harness="h_client", quick=80000, thorough=4000000, fuzz=600, hang=10),
            dict(harness="h_threads", flavor="sched", quick=5000, thorough=300000, hang=60)],
    "C22": dict(harness="h_client", quick=80000, thorough=4000000, fuzz=600, hang=10),
    "C23": [dict(harness="h_client", quick=80000, thorough=4000000, fuzz=600, hang=10),
            dict(harness="h_threads", flavor="sched", quick=8000, thorough=300000, hang=60)],
    "C24": dict(harness="h_client", quick=80000, thorough=4000000, fuzz=600, hang=10),
    # Real concurrency under the race detector, then generated schedules.
    "C20": [dict(harness="h_threads", flavor="tsan", quick=8000, thorough=300000, hang=60, racy=True),
            dict(harness="h_threads", flavor="sched", quick=24000, thorough=1500000, hang=60),
            dict(harness="h_threads", flavor="schedtsan", quick=16000, thorough=1000000, hang=60)],
    "C21": [dict(harness="h_threads", flavor="tsan", quick=8000, thorough=300000, hang=60, racy=True),
            dict(harness="h_threads", flavor="sched", quick=20000, thorough=1500000, hang=60),
            dict(harness="h_threads", flavor="schedtsan", quick=12000, thorough=1000000, hang=60)],
    "C26": dict(harness="h_client", quick=80000, thorough=4000000, hang=10),
    "C27": [dict(harness="h_client", quick=50000, thorough=3000000, fuzz=600, hang=10),
            dict(harness="h_threads", flavor="sched", quick=8000, thorough=500000, hang=60),
            dict(harness="h_threads", flavor="schedtsan", quick=8000, thorough=500000, hang=60)],
    "C28": dict(harness="h_threads", flavor="schedrel", quick=24000, thorough=1500000, hang=60),
    "C25": dict(harness="h_curl", quick=100000, thorough=4000000, extra_src=["sample/transport/http_transport.cc"],
                defs=["-DCURL_DISABLE_TYPECHECK"], fuzz=300),
}
