LOGWRAP = ["_Z16gGetLoggingLevelPKc"]
SQLWRAP = ["sqlite3_open", "sqlite3_open_v2", "sqlite3_close", "sqlite3_close_v2"]
SOCKWRAP = ["poll", "__poll_chk", "ppoll", "__ppoll_chk", "select", "recvfrom", "__recvfrom_chk", "recvmsg", "recv", "socket", "bind", "sendto"]
SUITES = {
    "queue": dict(variant="conc", src=["harness/queue.cpp"], wrap=LOGWRAP),
    "locks": dict(variant="conc", src=["harness/locks.cpp"], wrap=LOGWRAP),
    "containers": dict(variant="seq", src=["harness/containers.cpp"], wrap=LOGWRAP),
    "config": dict(variant="seq", src=["harness/config.cpp"], wrap=LOGWRAP + SQLWRAP),
    "config_conc": dict(variant="conc", src=["harness/config_conc.cpp"], wrap=LOGWRAP),
    "logger": dict(variant="seq", src=["harness/logger.cpp", "harness/logger_group.cpp"]),
    "logger_conc": dict(variant="conc", src=["harness/logger_conc.cpp"], wrap=["fopen", "fopen64"]),
    "reporting": dict(variant="seq", src=["harness/reporting.cpp"], wrap=LOGWRAP + SQLWRAP + ["pthread_create"]),
    "reporting_conc": dict(variant="conc", src=["harness/reporting_conc.cpp"], wrap=LOGWRAP + ["sqlite3_open", "sqlite3_open_v2"]),
    "sockets": dict(variant="seq", src=["harness/sockets.cpp"], wrap=LOGWRAP + SOCKWRAP, **{"with": ["Sockets.cpp"]}),
    "sockets_conc": dict(variant="conc", src=["harness/sockets_conc.cpp"], wrap=LOGWRAP, **{"with": ["Sockets.cpp"]}),
    "sockets_r": dict(variant="seq", src=["harness/sockets.cpp"], wrap=LOGWRAP + SOCKWRAP, repo_flags=["-DHAVE_GETHOSTBYNAME2_R=1"], **{"with": ["Sockets.cpp"]}),
    "unixsignal": dict(variant="seq", src=["harness/unixsignal.cpp"], wrap=LOGWRAP + ["system"], **{"with": ["UnixSignal.cpp"]}),
    "unixsignal_conc": dict(variant="conc", src=["harness/unixsignal_conc.cpp"], wrap=LOGWRAP, **{"with": ["UnixSignal.cpp"]}),
    "selfdetect": dict(variant="seq", src=["harness/selfdetect.cpp"], wrap=LOGWRAP + ["system"], **{"with": ["UnixSignal.cpp"]}),
    "reentrant": dict(variant="conc", src=["harness/reentrant.cpp"], wrap=LOGWRAP),
    "console": dict(variant="conc", src=["harness/console.cpp"], wrap=LOGWRAP),
    "utils": dict(variant="seq", src=["harness/utils.cpp"], wrap=LOGWRAP),
}
MC = "model_checking"
EX = "exploration"
PROPS = {}
for c in "C01 C02 C03 C04 C05 C06 C07 C08".split():
    PROPS[c] = dict(suites=["queue"] + (["containers"] if c in ("C01", "C05", "C06", "C07") else []), level=MC)
for c in "C09 C10 C11 C12 C13 C14".split():
    PROPS[c] = dict(suites=["locks"], level=MC)
for c in "C15 C32 C35".split():
    PROPS[c] = dict(suites=["containers"], level=MC)
for c in "C33 C34 C36".split():
    PROPS[c] = dict(suites=["containers"], level=EX)
for c in "C16 C17 C37 C38 C39 C40".split():
    PROPS[c] = dict(suites=["utils"], level=EX)
PROPS["C44"] = dict(suites=["utils", "locks"], level=MC)
for c in "C18 C19 C24 C25 C26".split():
    PROPS[c] = dict(suites=["config"], level=MC)
for c in "C20 C21 C27".split():
    PROPS[c] = dict(suites=["config"], level=EX)
PROPS["C23"] = dict(suites=["config"], level="fault_enumeration")
PROPS["C22"] = dict(suites=["config_conc"], level=MC)
PROPS["C28"] = dict(suites=["logger", "logger_conc"], level=MC)
PROPS["C29"] = dict(suites=["logger", "logger_conc"], level=MC)
PROPS["C30"] = dict(suites=["logger", "logger_conc"], level=MC)
PROPS["C31"] = dict(suites=["reporting", "reporting_conc"], level=MC)
PROPS["C43"] = dict(suites=["sockets", "sockets_r", "sockets_conc"], level=MC)
PROPS["C42"] = dict(suites=["unixsignal", "unixsignal_conc"], level=MC)
PROPS["C41"] = dict(suites=["selfdetect"], level=MC)
PROPS["C45"] = dict(suites=["config", "reporting", "sockets", "logger", "utils"], level=MC)
PROPS["C47"] = dict(suites=["console"], level=MC)
PROPS["C46"] = dict(suites=["reentrant"], level=MC)
