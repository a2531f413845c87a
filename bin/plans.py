"""Which machines are run for a property, with which constants."""
NPIPE = 8
# calls per operation and pipeline (quick); the thorough tier multiplies it
BURST = {"C03": 64, "C04": 56, "C05": 44, "C06": 64, "C07": 52, "C08": 54, "C09": 26, "C10": 50, "C11": 24, "C12": 22,
         "C13": 38, "C14": 86, "C15": 32, "C16": 38, "C17": 22, "C18": 54, "C19": 30, "C20": 36, "C21": 38, "C22": 54,
         "C23": 12, "C24": 130}
THOROUGH = 24


def walk(prop, seed, burst, mixed="no", mode="value", maxlen=1500, name="client walk"):
    return dict(module="WalkMC", mode=mode, name=name,
                props=dict(vprop=prop, vseed=seed, vburst=burst, vmixed=mixed, vmaxlen=maxlen))


def plan_of(prop, tier, seed):
    deep = tier == "thorough"
    base = 100003 * seed
    jobs = []
    n = NPIPE * (4 if deep else 1)
    if prop == "C01":
        for k in range(n):
            if k % 2:
                jobs.append(walk(prop, base + k, (40 if deep else 8), "no", "pure", 330, "operation by operation"))
            else:
                jobs.append(walk(prop, base + k, (40 if deep else 8), "yes", "pure", 330, "operations mixed"))
        for j in jobs:
            j["props"]["vspoil"] = "yes"
        j = walk(prop, base + 900, 80 if deep else 16, mode="pure", name="sessions of QI objects")
        j["module"] = "SessionMC"
        return jobs + [j]
    if prop == "C02":
        for k in range(n):
            j = walk(prop, base + k, 24 if deep else 6, "no", "laws", 1500 if deep else 330, "elements")
            j["props"]["vparts"] = 6 if deep else 2
            jobs.append(j)
        return jobs
    for k in range(n):
        b = BURST[prop] * (THOROUGH // 4 if deep else 1)
        jobs.append(walk(prop, base + k, b))
    # the laws of the specification itself, on calls of a client that are not replayed
    for k in range(6 if deep else 1):
        j = walk(prop, base + 700 + k, BURST[prop] * 2 if deep else max(12, BURST[prop] // 2), name="laws of the specified results")
        j["props"]["vlaws"] = 1000
        j["spec_only"] = True
        jobs.append(j)
    if prop in ("C22", "C23"):
        for k in range(8 if deep else 2):
            j = walk(prop, base + 500 + k, 60 if deep else 10, name="sessions of QI objects")
            j["module"] = "SessionMC"
            j["judge"] = dict(vjudge="estimate_cem") if prop == "C22" else dict(vskip="estimate_cem")
            jobs.append(j)
    return jobs
