"""What each check does: amounts (quick, thorough), models, builds."""
ALL = ["C%02d" % i for i in range(1, 24)]
PROPS = {p: dict(scale=(3, 12)) for p in ALL}


def edit(modes, quick, thorough):
    return ("Edit", dict(Modes=modes, Depth=quick[0], Every=quick[1]), dict(Modes=modes, Depth=thorough[0], Every=thorough[1]))


MODELS = {
    "C01": ["Load"], "C02": ["Load"], "C05": ["Load"], "C21": ["Load"],
    "C03": ["RoundTrip"], "C04": ["RoundTrip"],
    "C06": [edit('{"plain"}', ("4", "13"), ("5", "211"))],
    "C07": [edit('{"fold", "foldsec", "foldkey"}', ("4", "29"), ("5", "601"))],
    "C12": [edit('{"many"}', ("4", "29"), ("5", "601"))],
    "C08": ["Tree"],
    "C09": ["Refs"],
    "C10": [("Shadow", dict(), dict(MaxOps="4", Every="101"))],
    "C11": [("Merge", dict(), dict(MaxSrcs="3", Every="211"))],
    "C13": [("Typed", dict(), dict(N="300", Every="23"))],
    "C14": [("Lists", dict(Every="101"), dict(MaxLen="3", Every="1009"))],
    "C18": [("Multi", dict(), dict(MaxLines="4", Every="53"))],
    "C22": [("Decor", dict(), dict(MaxLen="3", Every="211"))],
    "C15": [("Struct", dict(Part='"map"', Every="5"), dict(Part='"map"', Every="1"))],
    "C16": [("Struct", dict(Part='"refl"', Every="1"), dict(Part='"refl"', Every="1"))],
    "C23": [("Two", dict(), dict(Depth="4", Every="41"))],
    "C19": ["Entries"], "C20": ["Entries"],
}
for p in MODELS:
    PROPS[p]["models"] = MODELS[p]
for p in ("C07", "C09", "C12"):
    PROPS[p]["scale"] = (2, 7)

PROPS["C17"] = dict(scale=(4, 16), gen=False, extra="conc", ctl=True, race=True,
    technique="TLA+ specification (TLC): histories recorded under enumerated schedules of the real code are checked "
              "for linearizability against the atomic specification; race detector on the same calls",
    note="Every recorded concurrent history must be explainable as atomic steps of spec/IniConc.tla. Bounded by programs "
         "of 2-3 goroutines with up to 3 calls each, switched at lock operations (every schedule of almost all "
         "programs); that nothing happens outside the lock is left to the race detector on free runs.")
