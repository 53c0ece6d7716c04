"""What each check runs, within which bounds."""
Q = dict(srcs=["query_c"], conc=["parser_c", "dfa_cpp"])
def qs(*l):
    return "-DQUERIES=" + ",".join('"%s"' % x for x in l)
COMMON = ["clang -O1 IR of the sources is what is encoded; the compiler is trusted", "malloc never fails", "capacity constants (#define MAX_...) are lowered as listed in runs[].capacities_lowered, never raised"]
SPECS = {}
K39 = "k" * 39
CORE = ["$.a","$.*","$..a","$..*","$[*]","$.a.b","$.a[*]","$.a[1:2]","$[1:3]","$.a..b","$..a.b","$.*.*","$[*][*]","$..a[*]","$.a[0:1].b","$..a..b","$.a[*].b","$.*.b","$.a.*","$","$.a[1]","$[0]"]
CORE2 = ["$.a[:2]","$.a[1:]","$.*[0:1]","$..a[1:2].b","$.*[1:2].*","$..a.*","$.a..*","$..a..*","$.a[1:2]..b","$[*]..a","$[1:2][0:1]","$..*.a","$..b[*].a","$.a[1:2][*]","$.a[*][1:2]","$..a[0:1]..b","$.a[0:0]","$.a[0].b","$[1][0]","$..a[1]","$[0]..a","$.a[2:1]","$.*.*.*","$.a.b.a","$[*].a","$..a[0:1]","$..*[0:1]"]
SPECS["C01"] = dict(
    runs=[dict(name="core", harness="q_serial.c", **Q, reach=[1, 2, 3], defs=["-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=3", qs(*CORE)], thorough_defs=["-UBUDGET", "-DBUDGET=5"]),
          dict(name="core2", harness="q_serial.c", **Q, reach=[1, 2, 3], defs=["-DBUDGET=5", "-DMAXDEPTH=4", "-DPRIMKINDS=1", qs(*CORE2)], thorough_defs=["-UPRIMKINDS", "-DPRIMKINDS=2"]),
          dict(name="primitives", harness="q_serial.c", **Q, reach=[1, 2, 3], defs=["-DBUDGET=3", "-DMAXDEPTH=3", "-DPRIMKINDS=9", "-DWSBUDGET=1", qs("$..*","$.a","$[1]","$..a[0:1]")]),
          dict(name="deep", harness="q_serial.c", **Q, reach=[1, 2, 3], defs=["-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=1", "-DPADDEPTH=12", qs("$..a","$..*","$.z[*]..a[1:2]", "$" + ".z[0]" * 12 + ".a[*]")]),
          dict(name="wide", harness="q_serial.c", **Q, reach=[1, 2, 3], defs=["-DBUDGET=5", "-DMAXDEPTH=3", "-DPRIMKINDS=1", "-DPADARR=11", qs("$.a[10:12]","$[11:13].a","$..a[12]","$[*].a","$.a[9:]")]),
          dict(name="longtext", harness="q_serial.c", **Q, reach=[1, 2, 3], defs=["-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=2", '-DPADKEY="%s"' % K39, '-DPADSTR="s%s"' % (K39*2), qs("$.%sa" % K39,"$..%sa[*]" % K39,"$.%sa.%sa" % (K39, K39),"$..*")]),
    ],
    assumptions=COMMON)
SPECS["C08"] = dict(
    runs=[dict(name="tokens", harness="lexer.c", **Q, reach=[1, 11, 12, 13, 14, 15, 16, 17], defs=["-DBUDGET=4", "-DWSBUDGET=1", "-DESCBUDGET=0", "-DSTRLEN=1", "-DPRIMS=2"], thorough_defs=["-UWSBUDGET", "-DWSBUDGET=2"]),
          dict(name="space", harness="lexer.c", **Q, reach=[1, 11, 12, 13, 14, 15, 16, 17], defs=["-DBUDGET=3", "-DWSBUDGET=2", "-DESCBUDGET=0", "-DSTRLEN=1", "-DPRIMS=2"], thorough_defs=["-UWSBUDGET", "-DWSBUDGET=3"]),
          dict(name="primitives", harness="lexer.c", **Q, reach=[1, 11, 12, 13, 14, 16, 17], defs=["-DBUDGET=2", "-DWSBUDGET=2", "-DESCBUDGET=0", "-DSTRLEN=1", "-DPRIMS=5", "-DNUMSHAPES=1"], thorough_defs=["-UBUDGET", "-DBUDGET=3"]),
          dict(name="strings", harness="lexer.c", **Q, reach=[1, 11, 12, 13, 14, 15, 16, 17], defs=["-DBUDGET=3", "-DWSBUDGET=0", "-DESCBUDGET=2", "-DSTRLEN=2", "-DPRIMS=2"], thorough_defs=["-USTRLEN", "-DSTRLEN=3"]),
          dict(name="longtext", harness="lexer.c", **Q, reach=[1, 11, 12, 13, 14, 16, 17], defs=["-DBUDGET=2", "-DWSBUDGET=1", "-DESCBUDGET=1", "-DSTRLEN=1", '-DPADSTR="%s"' % ("s:,{}[] "*12)])],
    assumptions=COMMON)
PT = dict(Q, harness="partition.c", caps={"MAX_EXTENSION": 3})
SPECS["C06"] = dict(
    runs=[dict(name="structure", **PT, reach=[1, 21, 22], defs=["-DBUDGET=5", "-DWSBUDGET=0", "-DESCBUDGET=0", "-DSTRLEN=1", "-DPRIMS=2", "-DMAXCORE=4"]),
          dict(name="space", **PT, reach=[1, 21], defs=["-DBUDGET=3", "-DWSBUDGET=2", "-DESCBUDGET=0", "-DSTRLEN=1", "-DPRIMS=2", "-DMAXCORE=3", "-DMAXDEPTH=2"]),
          dict(name="strings", **PT, reach=[1, 21], defs=["-DBUDGET=3", "-DWSBUDGET=0", "-DESCBUDGET=1", "-DSTRLEN=2", "-DPRIMS=2", "-DMAXCORE=3", "-DMAXDEPTH=2"]),
          dict(name="longtext", **PT, reach=[1, 21, 22], defs=["-DBUDGET=4", "-DWSBUDGET=0", "-DESCBUDGET=0", "-DSTRLEN=1", "-DPRIMS=2", "-DMAXCORE=9", '-DPADSTR="%s"' % ("s:,{}[] "*4)])],
    assumptions=COMMON)
BD = dict(Q, harness="bounded.c")
SPECS["C07"] = dict(
    runs=[dict(name="load3", **BD, caps={"MAX_EXTENSION": 3, "MEMORY_FOOTPRINT": 3}, reach=[1, 11, 12, 13, 14], defs=["-DBUDGET=5", "-DWSBUDGET=0", "-DESCBUDGET=0", "-DSTRLEN=1", "-DPRIMS=2"]),
          dict(name="load7", **BD, caps={"MAX_EXTENSION": 2, "MEMORY_FOOTPRINT": 7}, reach=[1, 11, 12], defs=["-DBUDGET=3", "-DWSBUDGET=2", "-DESCBUDGET=0", "-DSTRLEN=1", "-DPRIMS=2", "-DMAXDEPTH=2"]),
          dict(name="load5strings", **BD, caps={"MAX_EXTENSION": 8, "MEMORY_FOOTPRINT": 5}, reach=[1, 11, 12], defs=["-DBUDGET=3", "-DWSBUDGET=0", "-DESCBUDGET=1", "-DSTRLEN=2", "-DPRIMS=2", "-DMAXDEPTH=2"]),
          dict(name="longtext", **BD, caps={"MAX_EXTENSION": 10, "MEMORY_FOOTPRINT": 20}, reach=[1, 11, 12], defs=["-DBUDGET=4", "-DWSBUDGET=0", "-DESCBUDGET=0", "-DSTRLEN=1", "-DPRIMS=2", '-DPADSTR="%s"' % ("s:,{}[] "*4)])],
    assumptions=COMMON)
CT = dict(Q, harness="q_cont.c")
SPECS["C07"]["runs"] += [
    dict(name="loads4", **CT, caps={"MAX_EXTENSION": 3, "MEMORY_FOOTPRINT": 4}, reach=[1, 2, 3], defs=["-DLOADS", "-DBUDGET=5", "-DMAXDEPTH=3", "-DPRIMKINDS=1", qs("$.a", "$..*", "$..a", "$.a[1:2]", "$", "$.*.*", "$[1:2].a")]),
    dict(name="chunks", **CT, reach=[1, 2, 3, 4, 5, 6], thorough_defs=["-UBUDGET", "-DBUDGET=5"], defs=["-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=2", "-DKEYLOWER", qs("$.a", "$..*", "$.a[1:2]", "$", "$[1:2].a", "$..a.b")])]
SPECS["C07"]["runs"] += [
    dict(name="parloads", **Q, harness="whole.c", caps={"MEMORY_FOOTPRINT": 12, "MAX_EXTENSION": 3}, reach=[1, 2, 3, 14], defs=["-DMODES=4", "-DCORES=3", "-DBUDGET=5", "-DMAXDEPTH=3", "-DPRIMKINDS=2", "-DKEYLOWER", qs("$.a", "$..*", "$.a[1:2]", "$", "$[1:2].a")], thorough_defs=["-UBUDGET", "-DBUDGET=6"]),
    dict(name="filterloads", **Q, harness="whole.c", caps={"MEMORY_FOOTPRINT": 9}, reach=[1, 2, 13, 14], defs=["-DFILTERS", "-DROOTKIND=2", "-DMODES=3,4", "-DCORES=2", "-DBUDGET=5", "-DMAXDEPTH=4", "-DPRIMKINDS=1", "-DKEYLOWER", qs("$[?(@.b)].c", "$[?(@.b)]", "$[?(@.b)].c[?(@.b)]")], thorough_defs=["-UBUDGET", "-DBUDGET=6"]),
    dict(name="learnloads", **Q, harness="whole.c", caps={"MEMORY_FOOTPRINT": 9}, reach=[1, 2, 15], defs=["-DLEARN=2", "-DMODES=5", "-DCORES=2", "-DBUDGET=4", "-DMAXDEPTH=4", "-DPRIMKINDS=1", "-DKEYLOWER", qs("$.a", "$..*", "$.a[1:2]", "$")], thorough_defs=["-ULEARN", "-DLEARN=3"])]
PR = dict(Q, harness="q_par.c")
PQ = ["$", "$.a", "$..a", "$.a.b", "$.a[*]", "$.a[1:2]", "$[1:2]", "$..a[1:2]", "$.a[1:2].b", "$.a[1]", "$[0:2].a", "$.a..b"]
PQ2 = ["$[1:3]", "$[1:2][0:1]", "$[0:2].*", "$.*", "$..*", "$[*]", "$[3]", "$.a[2:]..b", "$[1:4].b", "$.*.*", "$..a.*", "$.a[*].b"]
SPECS["C03"] = dict(
    runs=[dict(name="core", **PR, reach=[1, 2, 3, 4, 5, 6], defs=["-DBUDGET=4", "-DMAXDEPTH=4", "-DPRIMKINDS=2", "-DMAXCHUNKS=4", "-DKEYLOWER", qs(*PQ, *PQ2)], thorough_defs=["-UBUDGET", "-DBUDGET=5"]),
          dict(name="arrays", **PR, reach=[1, 2, 3, 4, 5], defs=["-DONLYKIND=2", "-DBUDGET=6", "-DMAXDEPTH=4", "-DPRIMKINDS=2", "-DMAXCHUNKS=3", "-DKEYLOWER", qs("$[1:3]", "$[1:2][0:1]", "$[0:2][1:2]", "$[*][1:2]", "$[1:2][0:2][1:2]", "$..*")], thorough_defs=["-UBUDGET", "-DBUDGET=7"]),
          dict(name="objects", **PR, reach=[1, 2, 3, 4, 5], defs=["-DONLYKIND=1", "-DBUDGET=5", "-DMAXDEPTH=4", "-DPRIMKINDS=1", "-DMAXCHUNKS=3", "-DKEYLOWER", qs("$.a.b", "$..a.a")], thorough_defs=["-UMAXCHUNKS", "-DMAXCHUNKS=4"]),
          dict(name="wide", **PR, reach=[1, 2, 3, 4, 5], defs=["-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=2", "-DMAXCHUNKS=3", "-DKEYLOWER", "-DPADARR=11", qs("$.a[10:12]", "$[11:13].a", "$..a[12]", "$[*].a", "$.a[9:]")]),
          dict(name="deep", **PR, reach=[1, 2, 3, 4, 5], defs=["-DBUDGET=3", "-DMAXDEPTH=3", "-DPRIMKINDS=2", "-DMAXCHUNKS=3", "-DKEYLOWER", "-DPADDEPTH=12", qs("$..a", "$" + ".z[0]" * 12 + ".a[*]")], thorough_defs=["-UQUERIES", qs("$..a", "$..*", "$.z[*]..a[1:2]", "$" + ".z[0]" * 12 + ".a[*]")], caps={"MAX_NODE": 10000}),
          dict(name="longtext", caps={"MAX_STRING": 1000, "MAX_TEXT": 1000}, **PR, reach=[1, 2, 3, 4, 5], defs=["-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=2", "-DMAXCHUNKS=3", "-DKEYLOWER", '-DPADSTR="s%s"' % (K39*2), qs("$..*", "$.a[1:2]", "$..a", "$")])],
    assumptions=COMMON)
LQ = ["$..*", "$.a.b", "$.a[1:2]", "$[1:2]", "$.a[1:2].b", "$"]
SPECS["C04"] = dict(
    runs=[dict(name="learn2", **PR, reach=[1, 2, 3, 4], defs=["-DLEARN=2", "-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=2", "-DMAXCHUNKS=2", "-DKEYLOWER", qs(*LQ)], thorough_defs=["-UMAXCHUNKS", "-DMAXCHUNKS=3"]),
          dict(name="learn3", **PR, reach=[1, 2, 3, 4], defs=["-DLEARN=3", "-DBUDGET=3", "-DMAXDEPTH=3", "-DPRIMKINDS=1", "-DMAXCHUNKS=3", "-DKEYLOWER", qs("$..*", "$.a[1:2].b", "$..a.b")], thorough_defs=["-UBUDGET", "-DBUDGET=4"])],
    assumptions=COMMON)
SPECS["C05"] = dict(
    runs=[dict(name="schedules", **PR, reach=[1, 2, 3, 4, 5], trust=("race",), defs=["-DSCHED", "-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=2", "-DMAXCHUNKS=3", "-DKEYLOWER", qs("$..*", "$.a[1:2]", "$[1:2].a")]),
          dict(name="learned", **PR, reach=[1, 2, 3, 4], trust=("race",), defs=["-DSCHED", "-DLEARN=2", "-DBUDGET=3", "-DMAXDEPTH=3", "-DPRIMKINDS=1", "-DMAXCHUNKS=3", "-DKEYLOWER", qs("$.a", "$..*", "$.a[1:2]", "$[1:2].a", "$..a.b")])],
    assumptions=COMMON)
CPP = dict(srcs=["dfa_cpp"], conc=["parser_c"])
CS = dict(CPP, harness="charset.cpp", reach=[1, 2, 3])
SPECS["C13"] = dict(
    runs=[dict(name="characters", **CS, defs=["-DKINDS=1", "-DWIN=3"], thorough_defs=["-UWIN", "-DWIN=4"]),
          dict(name="window", **CS, defs=["-DKINDS=1", "-DWIN=5", "-DBASES='a'"], thorough_defs=["-UWIN", "-DWIN=6"]),
          dict(name="escapes", **CS, defs=["-DKINDS=4", "-DWIN=2", "-DITEMS=1", "-DFULL", "-DBASES='a',0xc8"]),
          dict(name="escapes2", tier="thorough", **CS, time_thorough=1500, defs=["-DKINDS=4", "-DWIN=1", "-DITEMS=2", "-DBASES='a'"])],
    assumptions=COMMON)
EC = dict(CPP, harness="eclass.cpp")
SPECS["C14"] = dict(
    runs=[dict(name="sets2", **EC, reach=[1, 2, 3, 4], defs=["-DWIN=3"], thorough_defs=["-UWIN", "-DWIN=4"]),
          dict(name="sets3", **EC, reach=[1, 2, 3, 4], tier="thorough", time_thorough=1500, defs=["-DWIN=2", "-DSETS=3", "-DBASES='a',1"])],
    assumptions=COMMON)
RX = dict(CPP, harness="regex.cpp", reach=[1, 2])
SPECS["C12"] = dict(
    runs=[dict(name="sets", **RX, defs=["-DLEAVES=2", "-DOPS=2", "-DSETSMAX=1", "-DWORD=3"], thorough_defs=["-USETSMAX", "-DSETSMAX=2"]),
          dict(name="operators", **RX, defs=["-DLEAVES=2", "-DOPS=3", "-DSETSMAX=0", "-DWORD=4"]),
          dict(name="three", **dict(RX, reach=[2]), defs=["-DLEAVES=3", "-DOPS=2", "-DSETSMAX=0", "-DWORD=3", "-DECONLY"], thorough_defs=["-UWORD", "-DWORD=4"]),
          dict(name="flat", **dict(RX, reach=[2]), defs=["-DLEAVES=4", "-DKIDS=4", "-DNEST=1", "-DOPS=2", "-DLETTERS=1", "-DSETSMAX=0", "-DWORD=4", "-DECONLY"], thorough_defs=["-ULEAVES", "-DLEAVES=5", "-UKIDS", "-DKIDS=5", "-UOPS", "-DOPS=3", "-UWORD", "-DWORD=5"]),
          dict(name="references", **dict(RX, reach=[2]), defs=["-DLEAVES=2", "-DOPS=2", "-DSETSMAX=0", "-DREFS", "-DWORD=3", "-DECONLY"])],
    assumptions=COMMON)
MX = dict(CPP, harness="mix.cpp")
TB = dict(CPP, harness="table.cpp", reach=[1, 2, 3])
SPECS["C11"] = dict(
    runs=[dict(name="rules2", **MX, reach=[1], defs=["-DLEAVES=2", "-DOPS=1", "-DSETSMAX=0", "-DWORD=3"], thorough_defs=["-UOPS", "-DOPS=2"]),
          dict(name="conditions", **MX, reach=[1, 2], defs=["-DLEAVES=1", "-DRULES=3", "-DCOND=1", "-DOPS=1", "-DSETSMAX=0", "-DWORD=3"]),
          dict(name="table2", **TB, defs=["-DROWS=2", "-DDEV=1"]),
          dict(name="table3", **TB, defs=["-DROWS=3", "-DDEV=0"], thorough_defs=["-UROWS", "-DROWS=4"]),
          dict(name="wide", **TB, defs=["-DROWS=2", "-DDEV=0", "-DIM=140"], thorough_defs=["-UIM", "-DIM=256"])],
    assumptions=COMMON)
SPECS["C18"] = dict(
    runs=[dict(name="moves", **MX, reach=[1, 2, 3], defs=["-DRUNTIME", "-DLEAVES=1", "-DRULES=2", "-DCOND=1", "-DOPS=1", "-DSETSMAX=1", "-DWORD=3"]),
          dict(name="table", **TB, defs=["-DRUNTIME", "-DROWS=3", "-DDEV=0"]),
          dict(name="wide", **TB, defs=["-DRUNTIME", "-DROWS=2", "-DDEV=0", "-DIM=140"], thorough_defs=["-UIM", "-DIM=256"]),
          dict(name="links", **TB, defs=["-DRUNTIME", "-DROWS=3", "-DDEV=0", "-DIM=40"], thorough_defs=["-UROWS", "-DROWS=4"]),
          dict(name="scanner", **CPP, harness="scan.cpp", reach=[1, 2, 3, 4, 5], defs=["-DLEAVES=1", "-DOPS=1", "-DSETSMAX=0", "-DTEXT=4", "-DWORD=1"], thorough_defs=["-UTEXT", "-DTEXT=5"])],
    assumptions=COMMON)
QD = dict(CPP, harness="qdfa.c")
SPECS["C10"] = dict(
    runs=[dict(name="paths2", **QD, reach=[1, 2, 3, 6], defs=["-DSTEPS=2", "-DWORD=4"], thorough_defs=["-UWORD", "-DWORD=5"]),
          dict(name="paths3", **QD, reach=[1, 2, 3, 6], defs=["-DSTEPS=3", "-DWORD=3"], thorough_defs=["-UWORD", "-DWORD=4"]),
          dict(name="filters2", **QD, reach=[1, 2, 4, 5, 6], defs=["-DFILTERS=1", "-DSTEPS=2", "-DWORD=3"]),
          dict(name="filters3", **QD, reach=[1, 2, 4, 5, 6], defs=["-DFILTERS=1", "-DSTEPS=3", "-DWORD=4", "-DKINDS=3"], thorough_defs=["-UKINDS", "-DKINDS=10"])],
    assumptions=COMMON)
EV = dict(Q, harness="eval.c", reach=[1, 2, 3])
SPECS["C15"] = dict(
    runs=[dict(name="one", **EV, defs=["-DOPS=1"]),
          dict(name="two", **EV, defs=["-DOPS=2", "-DKINDS=4", "-DOPSET=14"], thorough_defs=["-UKINDS", "-DKINDS=6"]),
          dict(name="mixed", **EV, defs=["-DOPS=2", "-DKINDS=8", "-DOPSET=4"], thorough_defs=["-UOPSET", "-DOPSET=6"]),
          dict(name="three", tier="thorough", **EV, time_thorough=1500, defs=["-DOPS=3", "-DKINDS=3", "-DOPSET=5"])],
    assumptions=COMMON + ["a division of zero by zero, and a modulo whose operand is beyond 1e15 in absolute value, are outside the property"])
PS = dict(srcs=["parser_c"], harness="parser.c")
SPECS["C09"] = dict(
    runs=[dict(name="steps", **PS, reach=[1], defs=["-DSTEPS=2", "-DEOPS=0", "-DVAR=1", "-DSYMLEAF=0", "-DLEAFKINDS=8"], thorough_defs=["-USTEPS", "-DSTEPS=3", "-ULEAFKINDS", "-DLEAFKINDS=4"]),
          dict(name="leaves", **PS, reach=[1], defs=["-DSTEPS=1", "-DEOPS=0", "-DVAR=1", "-DNAMELEN=3", "-DSTRLEN=2"], thorough_defs=["-UVAR", "-DVAR=3"]),
          dict(name="operators", **PS, reach=[1], defs=["-DSTEPKINDS=0", "-DSTEPS=1", "-DEOPS=2", "-DVAR=0", "-DLEAFKINDS=2", "-DPARENS=0"], thorough_defs=["-UPARENS", "-DPARENS=1", "-ULEAFKINDS", "-DLEAFKINDS=3"]),
          dict(name="precedence", **PS, reach=[1], defs=["-DSTEPKINDS=0", "-DSTEPS=1", "-DEOPS=3", "-DVAR=0", "-DLEAFKINDS=1", "-DSYMLEAF=0"], thorough_defs=["-DPARENS=1"]),
          dict(name="blanks", **PS, reach=[1], defs=["-DSTEPS=1", "-DEOPS=1", "-DVAR=0", "-DWS=1", "-DSYMLEAF=0", "-DOPSET=7", "-DLEAFKINDS=4"], thorough_defs=["-UWS", "-DWS=2"]),
          dict(name="tokens", **PS, reach=[2, 3, 255], defs=["-DTOKENS=3"], thorough_defs=["-UTOKENS", "-DTOKENS=4"]),
          dict(name="bytes", **PS, reach=[2, 3, 255], defs=["-DRAW=2"], thorough_defs=["-URAW", "-DRAW=3"])],
    assumptions=COMMON + ["line breaks inside a query, and == or != next to < > <= >= without parentheses, are outside the property"])
FQ = ["-DFILTERS", "-DKEYLOWER"]
SPECS["C02"] = dict(
    runs=[dict(name="elements", harness="q_serial.c", **Q, reach=[1, 2, 3], defs=FQ + ["-DROOTKIND=2", "-DBUDGET=7", "-DMAXDEPTH=2", "-DPRIMKINDS=1", qs("$[?(@.b)].c", "$[?(!@.b)].c", "$[?(@.b)]")]),
          dict(name="values", harness="q_serial.c", **Q, reach=[1, 2], defs=FQ + ["-DROOTKIND=2", "-DBUDGET=4", "-DMAXDEPTH=2", "-DPRIMKINDS=9", qs("$[?(@.b)].c", "$[?(@.b==1)].c", "$[?(@.b<5)]", "$[?(@.b!=@.c)].b", "$[?(@.b=='x')].c")]),
          dict(name="logic", harness="q_serial.c", **Q, reach=[1, 2, 3], defs=FQ + ["-DROOTKIND=2", "-DBUDGET=6", "-DMAXDEPTH=2", "-DPRIMKINDS=1", qs("$[?(@.b&&@.c)].d", "$[?(@.b||@.c)].d", "$[?(@.b<3&&@.c)].c", "$[?(@.b<3||@.b>7)]", "$[?((@.b||@.c)&&!@.d)].*")]),
          dict(name="nested", harness="q_serial.c", **Q, reach=[1, 2], defs=FQ + ["-DROOTKIND=2", "-DBUDGET=6", "-DMAXDEPTH=4", "-DPRIMKINDS=1", qs("$[?(@.b)].c[?(@.b)]", "$[?(@.b)][?(@.b)].c")], thorough_defs=["-UBUDGET", "-DBUDGET=7"]),
          dict(name="paths", harness="q_serial.c", **Q, reach=[1, 2, 3], defs=FQ + ["-DBUDGET=5", "-DMAXDEPTH=4", "-DPRIMKINDS=1", qs("$..a[?(@.b)].c", "$.a[?(@.b.c)].d", "$.a[?(@.b)]", "$[?(@.b)].*", "$.*[?(@.b)]", "$[?(@.b)]..c", "$[0:1][?(@.b)].c", "$[?(@.b.c)].b")], thorough_defs=["-UBUDGET", "-DBUDGET=6"]),
          dict(name="parallel", **PR, reach=[1, 2, 3, 4, 5], defs=FQ + ["-DROOTKIND=2", "-DBUDGET=5", "-DMAXDEPTH=4", "-DPRIMKINDS=1", "-DMAXCHUNKS=3", qs("$[?(@.b)].c", "$[?(@.b)]", "$[?(@.b)].b", "$[1:2][?(@.b)]", "$[?(@.b)].c[0:1]")], thorough_defs=["-UBUDGET", "-DBUDGET=6"]),
          dict(name="chunks", **CT, reach=[1, 2, 4, 5, 6], defs=FQ + ["-DROOTKIND=2", "-DBUDGET=5", "-DMAXDEPTH=4", "-DPRIMKINDS=1", qs("$[?(@.b)].c", "$[?(@.b)]", "$[?(@.b)].c[?(@.b)]")], thorough_defs=["-UBUDGET", "-DBUDGET=6"])],
    assumptions=COMMON)
AD = dict(Q, harness="adt.c", asan=True)
SPECS["C16"] = dict(
    runs=[dict(name="syntaxstack", **AD, caps={"MAX_STACK": 20}, reach=[1, 2, 3], defs=["-DADT=1", "-DN=3"], thorough_defs=["-UN", "-DN=4"]),
          dict(name="querystack", **AD, caps={"MAX_STACK": 20}, reach=[1, 2], defs=["-DADT=2", "-DN=4"], thorough_defs=["-UN", "-DN=5"]),
          dict(name="results", **AD, caps={"MAX_OUTPUT": 6, "MAX_STRING": 12}, reach=[1, 2, 3], defs=["-DADT=3", "-DN=3"], thorough_defs=["-UN", "-DN=4"]),
          dict(name="tuples", **AD, caps={"MAX_TUPLE_LIST": 6, "MAX_TEXT": 12}, reach=[1, 2], defs=["-DADT=4", "-DN=3"], thorough_defs=["-UN", "-DN=4"]),
          dict(name="constraints", **AD, caps={"MAX_CONSTRAINT": 8, "MAX_STATES": 8}, reach=[1, 2, 3], defs=["-DADT=5", "-DN=3"], thorough_defs=["-UN", "-DN=4", "-DFULLNAMES"]),
          dict(name="units", **AD, caps={"MAX_UNIT": 5, "MAX_UNMATCHED_SYMBOL": 5, "MAX_STATE": 5}, reach=[1, 2, 3], defs=["-DADT=6", "-DN=3"], thorough_defs=["-UN", "-DN=4"]),
          dict(name="paths", **AD, reach=[1, 2, 3, 4], defs=["-DADT=7", "-DN=3", "-DSTATES=2", "-DNKEYS=2"], thorough_defs=["-UNKEYS", "-DNKEYS=3"]),
          dict(name="paths1", **AD, reach=[1, 2, 3, 4], defs=["-DADT=7", "-DN=4", "-DSTATES=1", "-DNKEYS=3"], thorough_defs=["-UN", "-DN=5"]),
          dict(name="runtime", **AD, reach=[1, 2, 3], defs=["-DADT=8", "-DN=1"], thorough_defs=["-UN", "-DN=3"])],
    assumptions=COMMON)
WH = dict(Q, harness="whole.c")
WQ = qs("$.kka", "$..*", "$.kka[0:2]", "$")
FIT = {"MAX_OUTPUT": 3, "MAX_STRING": 30, "MAX_TEXT": 30, "MAX_SIZE_PRIMITIVE": 10, "MAX_PRIMITIVE": 8, "MAX_STACK": 5, "MAX_KEY_TEXT": 4, "MAX_EXTENSION": 3, "MEMORY_FOOTPRINT": 12}
LOADS = {"MAX_EXTENSION": 3, "MEMORY_FOOTPRINT": 9}
NULLRAW = dict(srcs=["query_c"], conc=["parser_c", "dfa_cpp"], harness="rawdoc.c", asan=True)
SPECS["C17"] = dict(
    runs=[dict(name="fit", **WH, asan=True, caps=FIT, reach=[1, 2, 3, 4, 6, 7, 8, 9, 11, 13, 20], defs=["-DMODES=1,3", "-DBUDGET=4", "-DMAXDEPTH=4", "-DPRIMKINDS=2", "-DKEYLOWER", '-DPADSTR="ssssss"', '-DPADKEY="kk"', WQ], thorough_defs=["-UBUDGET", "-DBUDGET=5"]),
          dict(name="fitpar", **WH, asan=True, caps=FIT, reach=[1, 2, 3, 4, 6, 7, 8, 9, 12, 14, 20], defs=["-DMODES=2,4", "-DCORES=3", "-DBUDGET=4", "-DMAXDEPTH=4", "-DPRIMKINDS=2", "-DKEYLOWER", '-DPADSTR="ssssss"', '-DPADKEY="kk"', WQ], thorough_defs=["-UBUDGET", "-DBUDGET=5"]),
          dict(name="fitlearn", **WH, asan=True, caps=dict(FIT, MEMORY_FOOTPRINT=1000), reach=[1, 2, 3, 8, 15, 20], defs=["-DMODES=5", "-DLEARN=2", "-DCORES=2", "-DBUDGET=3", "-DMAXDEPTH=3", "-DPRIMKINDS=1", "-DKEYLOWER", '-DPADKEY="kk"', qs("$.kka", "$..*")], thorough_defs=["-UBUDGET", "-DBUDGET=4"]),
          dict(name="filters", **WH, asan=True, caps=LOADS, reach=[1, 2, 11, 12, 13, 14], defs=FQ + ["-DMODES=1,2,3,4", "-DCORES=2", "-DROOTKIND=2", "-DBUDGET=4", "-DMAXDEPTH=4", "-DPRIMKINDS=1", qs("$[?(@.b)].c", "$..a[?(@.b)].c", "$[?(@.b)].c[?(@.b<3||!@.c)]")], thorough_defs=["-UBUDGET", "-DBUDGET=5"]),
          dict(name="broken", **WH, asan=True, caps=LOADS, reach=[1, 5, 11, 12, 13, 14], defs=["-DPREFIX", "-DMODES=1,2,3,4", "-DCORES=2", "-DBUDGET=3", "-DMAXDEPTH=3", "-DPRIMKINDS=2", "-DKEYLOWER", qs("$.a", "$..*", "$.a[1:2]", "$")], thorough_defs=["-UBUDGET", "-DBUDGET=4"]),
          dict(name="zerofill", **WH, autoinit="zero", fill=0, caps=LOADS, reach=[1, 2, 3, 11, 12, 13, 14], defs=FQ + ["-DMODES=1,2,3,4", "-DCORES=2", "-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=2", qs("$.a", "$..*", "$.a[1:2]", "$[?(@.b)].c")], thorough_defs=["-UBUDGET", "-DBUDGET=5"]),
          dict(name="onefill", **WH, fill=1, caps=LOADS, reach=[1, 2, 3, 11, 12, 13, 14], defs=["-DMODES=1,2,3,4", "-DCORES=2", "-DBUDGET=4", "-DMAXDEPTH=3", "-DPRIMKINDS=2", "-DKEYLOWER", qs("$.a", "$..*", "$.a[1:2]", "$..a.b")], thorough_defs=["-UBUDGET", "-DBUDGET=5"]),
          dict(name="anytext", **NULLRAW, reach=[1, 13], defs=["-DMODES=1", "-DLEN=3"], thorough_defs=["-ULEN", "-DLEN=4"]),
          dict(name="anybytes", **NULLRAW, caps={"MAX_EXTENSION": 2, "MEMORY_FOOTPRINT": 4}, reach=[2, 3, 4, 15], defs=["-DMODES=2,3,4", "-DLEN=6"], thorough_defs=["-ULEN", "-DLEN=7"]),
          dict(name="anyquery", **PS, asan=True, reach=[2, 3, 255], defs=["-DRAW=2"], thorough_defs=["-URAW", "-DRAW=3"]),
          dict(name="tokens", **PS, asan=True, reach=[2, 3, 255], defs=["-DTOKENS=2"], thorough_defs=["-UTOKENS", "-DTOKENS=3"])],
    assumptions=COMMON + ["malformed documents other than valid ones that break off are outside (the engine does not validate)", "results, texts, keys and nesting beyond the capacities are outside"])
