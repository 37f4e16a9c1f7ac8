"""What each check builds and runs."""
COST = {"Properties.cxx": 40, "ProgOptions.cxx": 20, "StateMachine.cxx": 20, "Manager.cxx": 16, "Device.cxx": 16, "Process.cxx": 15, "Channel.cxx": 15}
COMMON_ASSUMPTIONS = [
    "memory model: sequentially consistent interleavings; missing synchronisation is caught by a happens-before race detector instead",
    "the FairLogger stand-in never evaluates log messages",
]
T_SCHED = "stateless model checking of the real code: exhaustive preemption-bounded schedule exploration"
T_SEQ = "exhaustive bounded enumeration of operation sequences on the real code against a reference model"
T_BOTH = "stateless model checking of the real code: exhaustive exploration of schedules and operation sequences within bounds"
N_SCHED = "Holds for every schedule of the drivers' threads within the preemption bound (evidence lists bounds and whether the space was exhausted); trusts the engine's scheduler, clang's instrumentation and the drivers' oracles."
N_SEQ = "Holds for every operation sequence of the drivers' alphabet up to the depth given in the evidence; trusts the drivers' reference models."
NOT_APPLICABLE = {}
CONFIG = {"src": ["drivers/config.cc", "repo:ProgOptions.cxx", "repo:Properties.cxx", "repo:EventManager.cxx"], "src_plain": ["repo:Channel.cxx"],
          "libs": ["-lboost_program_options", "-lboost_regex", "-Wl,--unresolved-symbols=ignore-all"]}
SHM = {"src_plain": ["drivers/fakeshm.cc", "drivers/fakezmq.cc", "repo:MemoryResources.cxx", "repo:shmem/Common.cxx", "repo:shmem/Monitor.cxx"], "libs": ["-lzmq", "-Wl,--unresolved-symbols=ignore-all"]}


def shm(name, src, mode="seq", flags=(), **kw):
    import os
    d = {"name": name, "mode": mode, "src": src, "src_plain": kw.pop("plain", SHM["src_plain"]), "libs": kw.pop("libs", SHM["libs"]),
         "flags": ["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stub_opts")] + list(flags)}
    d.update(kw)
    return d

DEVICE_PLAIN = ["drivers/fakeshm.cc", "drivers/fakezmq.cc", "repo:MemoryResources.cxx", "repo:shmem/Common.cxx", "repo:shmem/Monitor.cxx", "repo:Channel.cxx",
                "repo:ProgOptions.cxx", "repo:Properties.cxx", "repo:EventManager.cxx", "repo:TransportFactory.cxx", "repo:States.cxx"]


def device(name, src, mode="mc", flags=(), instr=("repo:Device.cxx", "repo:StateMachine.cxx"), plain=(), **kw):
    d = {"name": name, "mode": mode, "src": list(src) + list(instr), "src_plain": [p for p in DEVICE_PLAIN + list(plain) if p not in instr], "flags": list(flags),
         "libs": ["-lzmq", "-lboost_program_options", "-lboost_regex", "-Wl,--unresolved-symbols=ignore-all"]}
    d.update(kw)
    return d


CHECKS = {
    "C27": {"technique": T_BOTH, "note": N_SCHED, "drivers": [{"name": "semaphore", "src": ["drivers/semaphore.cc", "repo:tools/Semaphore.cxx"]}]},
    "C03": {"technique": T_BOTH, "note": N_SCHED, "drivers": [{"name": "statequeue", "src": ["drivers/statequeue.cc", "repo:States.cxx"]}]},
    "C28": {"technique": T_SEQ, "note": N_SEQ, "drivers": [{"name": "ratelimit", "mode": "sched", "src": ["drivers/ratelimit.cc"], "weight": 3}, device("device28", ["drivers/rates.cc"], flags=["-DC28=1", "-DFAIR_STUBLOG_RECORD=1", "-DFAIR_STUBLOG_LINES=1"], mode="sched")]},
    "C29": {"technique": T_BOTH, "note": N_SCHED, "drivers": [{"name": "instancelimit", "src": ["drivers/instancelimit.cc"]}]},
    "C30": {"technique": T_SEQ, "note": N_SEQ, "drivers": [{"name": "parts", "mode": "seq", "src": ["drivers/parts.cc"]}, {"name": "parts_asan", "mode": "asan", "src": ["drivers/parts.cc"], "flags": ["-DSHORTER=1"]}]},
    "C04": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 22, "drivers": [{"name": "eventmanager", "src": ["drivers/eventmanager.cc", "repo:EventManager.cxx"]}]},
    "C01": {"technique": T_SEQ, "note": N_SEQ, "drivers": [{"name": "fsm_graph", "mode": "seq", "src": ["drivers/statemachine.cc", "repo:StateMachine.cxx", "repo:States.cxx"], "flags": ["-DC01=1"]}]},
    "C02": {"technique": T_SCHED, "note": N_SCHED, "drivers": [{"name": "fsm_threads", "src": ["drivers/statemachine.cc", "repo:StateMachine.cxx", "repo:States.cxx"]}]},
    "C05": {"technique": T_BOTH, "note": N_SCHED, "drivers": [dict(CONFIG, name="config")]},
    "C06": {"technique": T_BOTH, "note": N_SCHED, "drivers": [dict(CONFIG, name="notify", flags=["-DC06=1"], weight=5), dict(CONFIG, name="notify_types", mode="seq", flags=["-DC06=1", "-DTYPES=1", "-O0"], weight=1)]},
    "C13": {"technique": T_SEQ, "note": N_SEQ, "drivers": [shm("messages", ["drivers/messages.cc"], weight=4), shm("messages_asan", ["drivers/messages.cc"], mode="asan", flags=["-DSHORTER=1"])]},
    "C14": {"technique": T_SEQ, "note": N_SEQ, "budget_quick": 20, "drivers": [shm("messages14", ["drivers/messages.cc"], flags=["-DC14=1"], weight=2), shm("regions14", ["drivers/regions.cc"], mode="sched", flags=["-DPROP=14"])]},
    "C16": {"technique": T_SCHED, "note": N_SCHED, "budget_quick": 60, "drivers": [shm("regions16", ["drivers/regions.cc"], mode="mc", flags=["-DPROP=16"])]},
    "C17": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 60, "drivers": [shm("regions17", ["drivers/regions.cc"], mode="sched", flags=["-DPROP=17"])]},
    "C18": {"technique": T_SCHED, "note": N_SCHED, "budget_quick": 60, "drivers": [shm("events18", ["drivers/registry.cc"], mode="mc", flags=["-DPROP=18"])]},
    "C19": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 70, "drivers": [shm("registry19", ["drivers/registry.cc"], mode="mc", flags=["-DPROP=19"], weight=3), shm("histories19", ["drivers/registry.cc"], mode="sched", flags=["-DPROP=19", "-DSEQ=1"])]},
    "C22": {"technique": T_BOTH, "note": N_SEQ, "budget_quick": 50, "drivers": [shm("transfer22", ["drivers/transfer.cc"], mode="sched", flags=["-DPROP=22"], plain=SHM["src_plain"] + ["repo:Channel.cxx"])]},
    "C23": {"technique": T_SEQ, "note": N_SEQ, "budget_quick": 40, "drivers": [shm("shapes23", ["drivers/transfer.cc"], flags=["-DPROP=23"], plain=SHM["src_plain"] + ["repo:Channel.cxx"], weight=2),
        {"name": "standin23", "mode": "seq", "src": ["drivers/zmqconform.cc"], "src_plain": ["drivers/fakezmq.cc"], "libs": ["-lzmq"]}, {"name": "libzmq23", "mode": "seq", "src": ["drivers/zmqconform.cc"], "flags": ["-DREAL=1"], "libs": ["-lzmq"]}]},
    "C24": {"technique": T_SEQ, "note": N_SEQ, "budget_quick": 40, "drivers": [shm("poller24", ["drivers/transfer.cc"], flags=["-DPROP=24"], plain=SHM["src_plain"] + ["repo:Channel.cxx"])]},
    "C15": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 50, "drivers": [shm("header15", ["drivers/header.cc"], mode="mc", flags=[]), shm("layout15", ["drivers/header.cc"], mode="sched", flags=["-DSEQ=1"])]},
    "C09": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 55, "drivers": [device("hooks09", ["drivers/device.cc"], weight=2), device("walks09", ["drivers/device.cc"], mode="seq", flags=["-DSEQ=1"])]},
    "C11": {"technique": T_SEQ, "note": N_SEQ, "budget_quick": 40, "drivers": [device("channels11", ["drivers/channels.cc"], mode="sched", weight=3), device("again11", ["drivers/channels.cc"], flags=["-DAGAIN=1"], instr=("repo:Device.cxx", "repo:StateMachine.cxx", "repo:Channel.cxx"))]},
    "C10": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 50, "drivers": [device("ondata10", ["drivers/ondata.cc"], weight=2), device("preloaded10", ["drivers/ondata.cc"], mode="sched", flags=["-DSEQ=1"], weight=1)]},
    "C07": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 40, "drivers": [device("controller07", ["drivers/controller.cc"], instr=("repo:PluginServices.cxx",), plain=["repo:Device.cxx", "repo:StateMachine.cxx", "repo:Plugin.cxx"], weight=2), device("histories07", ["drivers/controller.cc"], mode="seq", flags=["-DSEQ=1"], instr=("repo:PluginServices.cxx",), plain=["repo:Device.cxx", "repo:StateMachine.cxx", "repo:Plugin.cxx"])]},
    "C08": {"technique": T_SCHED, "note": N_SCHED, "budget_quick": 75, "drivers": [device("control08", ["drivers/control.cc"], instr=("repo:PluginServices.cxx",), plain=["repo:Device.cxx", "repo:StateMachine.cxx", "repo:Plugin.cxx"])]},
    "C25": {"technique": T_SEQ, "note": N_SEQ, "budget_quick": 50, "drivers": [device("stock25", ["drivers/stock.cc"], mode="sched")]},
    "C20": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 60, "drivers": [shm("session20", ["drivers/session.cc"], mode="mc", flags=["-DPROP=20"], weight=2), shm("histories20", ["drivers/session.cc"], mode="sched", flags=["-DPROP=20", "-DSEQ=1"])]},
    "C21": {"technique": T_SCHED, "note": N_SCHED, "budget_quick": 60, "drivers": [shm("session21", ["drivers/session.cc"], mode="sched", flags=["-DPROP=21", "-DBOOST_INTERPROCESS_MANAGED_OPEN_OR_CREATE_INITIALIZE_TIMEOUT_SEC=1"])]},
    "C26": {"technique": T_SEQ, "note": N_SEQ, "budget_quick": 40, "drivers": [shm("memres26", ["drivers/memres.cc"], weight=3), shm("memres26_asan", ["drivers/memres.cc"], mode="asan", flags=["-DSHORTER=1"])]},
    "C31": {"technique": T_SCHED, "note": N_SCHED, "budget_quick": 60, "drivers": [{"name": "process31", "mode": "seq", "src": ["drivers/process.cc"], "src_plain": ["repo:tools/Process.cxx"], "libs": ["-lboost_filesystem", "-ldl"]}]},
    "C32": {"technique": T_BOTH, "note": N_SEQ, "budget_quick": 45, "drivers": [shm("pressure32", ["drivers/pressure.cc"], mode="sched")]},
    "C33": {"technique": T_BOTH, "note": N_SEQ, "budget_quick": 55, "drivers": [shm("monitor33", ["drivers/monitor.cc"], mode="sched")]},
    "C34": {"technique": T_SEQ, "note": N_SEQ, "budget_quick": 50, "drivers": [device("runner34", ["drivers/runner.cc"], mode="sched", flags=["-DFAIR_STUBLOG_RECORD=1", "-DFAIRMQ_HAS_STD_FILESYSTEM=1"],
        plain=["repo:PluginServices.cxx", "repo:Plugin.cxx", "repo:PluginManager.cxx", "repo:DeviceRunner.cxx", "repo:JSONParser.cxx", "repo:SuboptParser.cxx", "repo:plugins/config/Config.cxx", "repo:plugins/control/Control.cxx"],
        libs=["-lzmq", "-lboost_program_options", "-lboost_regex", "-lboost_filesystem", "-Wl,--unresolved-symbols=ignore-all"])]},
    "C39": {"technique": T_SEQ, "note": N_SEQ, "budget_quick": 25, "drivers": [device("programs39", ["drivers/programs.cc"], mode="sched", flags=["-DFAIRMQ_HAS_STD_FILESYSTEM=1"],
        plain=["repo:PluginServices.cxx", "repo:Plugin.cxx", "repo:PluginManager.cxx", "repo:DeviceRunner.cxx", "repo:JSONParser.cxx", "repo:SuboptParser.cxx", "repo:plugins/config/Config.cxx", "repo:plugins/control/Control.cxx"],
        libs=["-lzmq", "-lboost_program_options", "-lboost_regex", "-lboost_filesystem", "-Wl,--unresolved-symbols=ignore-all"])]},
    "C35": {"technique": T_BOTH, "note": N_SEQ, "budget_quick": 45, "drivers": [device("rates35", ["drivers/rates.cc"], flags=["-DFAIR_STUBLOG_RECORD=1", "-DFAIR_STUBLOG_LINES=1"])]},
    "C36": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 45, "drivers": [shm("debuglist36", ["drivers/debuglist.cc"], mode="sched", flags=["-DFAIRMQ_DEBUG_MODE=1", "-DFAIR_STUBLOG_RECORD=1", "-DFAIR_STUBLOG_LINES=1"], weight=4), dict(shm("listing36", ["drivers/debuglist.cc", "repo:shmem/Monitor.cxx"], mode="mc", flags=["-DFAIRMQ_DEBUG_MODE=1", "-DLISTING=1", "-DFAIR_STUBLOG_RECORD=1", "-DFAIR_STUBLOG_LINES=1"]), src_plain=[p for p in SHM["src_plain"] if "Monitor" not in p]), shm("overview36", ["drivers/debuglist.cc"], mode="sched", flags=["-DFAIR_STUBLOG_RECORD=1", "-DFAIR_STUBLOG_LINES=1"], weight=2)]},
    "C37": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 25, "drivers": [shm("allocwait37", ["drivers/allocwait.cc"], mode="sched")]},
    "C38": {"technique": T_BOTH, "note": N_SCHED, "budget_quick": 35, "drivers": [shm("monitorcmd38", ["drivers/monitorcmd.cc", "drivers/monitorcmd_main.cc"], mode="sched", flags=["-DFAIR_STUBLOG_RECORD=1", "-DFAIR_STUBLOG_LINES=1"], libs=["-lzmq", "-lboost_program_options", "-Wl,--unresolved-symbols=ignore-all"])]},
    "C12": {"technique": T_SEQ, "note": N_SEQ, "budget_quick": 45, "drivers": [dict(CONFIG, name="parser12", mode="seq", src=["drivers/parser.cc"], src_plain=["repo:JSONParser.cxx", "repo:SuboptParser.cxx", "repo:Channel.cxx", "repo:ProgOptions.cxx", "repo:Properties.cxx", "repo:EventManager.cxx"])]},
}
