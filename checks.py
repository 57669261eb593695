"""Which tests decide which property, and how much of each the tiers run."""


def var(prop, name="main", **kw):
    d = {"name": name, "run": "^Test%s_" % prop}
    d.update(kw)
    return d


CHECKS = {
    "C01": {"variants": [var("C01", scale=1, thorough=12)]},
    "C02": {"variants": [var("C02", scale=1.5)]},
    "C03": {"variants": [var("C03", scale=3)]},
    "C04": {"variants": [var("C04", scale=3)]},
    "C06": {"variants": [var("C06", scale=1)]},
    "C07": {"variants": [var("C07", scale=1)]},
    "C08": {"variants": [var("C08", scale=2)]},
    "C09": {"variants": [var("C09", scale=0.7)]},
    "C10": {"variants": [var("C10", scale=1.5)]},
    "C05": {"variants": [var("C05", scale=5)]},
    "C11": {"variants": [var("C11", scale=1)]},
    "C12": {"variants": [
        var("C12", scale=1.5, shards=3, thorough=10),
        var("C12", "small", scale=1.5, shards=2, thorough=10, env={"VERIF_MAXPAR": "1"}),
        var("C12", "race", scale=0.25, shards=3, thorough=10, race=True, env={"VERIF_MAXPAR": "1"}),
    ]},
    "C16": {"variants": [var("C16", scale=4)]},
    "C17": {"cli": True, "variants": [var("C17", scale=2)]},
    "C18": {"variants": [var("C18", scale=2)]},
    "C19": {"variants": [var("C19", scale=2)]},
    "C20": {"variants": [var("C20", scale=2)]},
    "C22": {"variants": [var("C22", scale=2)]},
    "C15": {"variants": [var("C15", scale=1.5)]},
    "C14": {"variants": [var("C14", scale=8)]},
    "C21": {"cli": True, "variants": [var("C21", scale=6)]},
    "C23": {"variants": [var("C23", scale=1.5)]},
    "C24": {"variants": [var("C24", scale=1)]},
    "C13": {"variants": [
        var("C13", scale=8, shards=4),
        var("C13", "race", scale=1, shards=4, race=True),
    ]},
}
