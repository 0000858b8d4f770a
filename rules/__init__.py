RULES = {}


def add(mod, **ids):
    for k, v in ids.items():
        RULES[k] = (mod, v)


add("values", V01="logic", V02="comparisons", V03="arithmetic", V05="casts", V06="hash_eq")
add("locks", C01="grants", C02="twophase", C03="deadlocks")
add("tables", T01="scans")
add("changes", Q05="changes")
add("indexes", I01="trees")
add("lookups", I02="lookups")
add("upkeep", I03="upkeep")
add("txn", C04="endings", C05="lifecycle", C06="watermark", C07="visibility", C08="writes", C09="rollback")
add("pages", E01="slots", E02="images")
add("wal", D01="acks", D02="framing")
add("codec", E03="codec")
add("disk", F02="files", F03="tracked")
add("writes", F04="buffered", F05="scheduled")
add("caches", F06="tiers", F07="policies")
add("recovery", D04="restart")
add("pool", B01="contents", B02="frames", B03="types", B05="policy")
add("operators", Q04="joins", Q01="streams", Q02="ordering", Q03="grouping")
