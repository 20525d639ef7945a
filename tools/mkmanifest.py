#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EOS = "TLA+ specification Eos.tla; TLC validates histories of the real code (recorded in a simulated cluster) against it"
NOTE = ("Bounded: seeded scenarios (inputs, schedules, faults, crashes) run on the unmodified code through its public API against an in-process "
        "stand-in for Kafka in virtual time; every recorded history is checked step by step by TLC against the specification.")
C = {}
for i in "C01 C02 C03 C04 C05 C06 C07 C08 C14 C15 C16 C17 C24 C26".split():
    C[i] = (EOS, NOTE)
NOTE2 = ("Bounded: seeded scenarios run on the unmodified code through its public API in virtual time; every recorded history is checked step by "
         "step by TLC against the specification.")
C["C09"] = ("TLA+ specification Sched.tla; TLC validates histories of the real async job scheduler against it", NOTE2)
C["C10"] = ("TLA+ specification Batcher.tla; TLC validates histories of the real AsyncBatcher against it", NOTE2)
DATA = "TLA+ specification %s; TLC validates histories of the real data type against it, step by step"
for i, m in dict(C20="Store.tla", C21="Heap.tla", C22="Codec.tla", C27="DList.tla, Pool.tla, Fork.tla, Funcs.tla").items():
    C[i] = (DATA % m, NOTE2)
C["C11"] = ("TLA+ specification Producer.tla; TLC validates histories of the real Producer and BatchProducer against it", NOTE2)
C["C12"] = ("TLA+ specification Balance.tla; TLC validates plans and rebalance histories of the real rebalancer against it (all small group states, seeded larger ones)", NOTE2)
C["C13"] = ("TLA+ specifications Balance.tla and Eos.tla; TLC validates rebalance histories of the real rebalancer and of whole event sources against them", NOTE)
C["C19"] = ("TLA+ specification Record.tla; TLC validates records produced and read back by the real code against it", NOTE2)
C["C18"] = ("TLA+ specification Topics.tla; TLC validates what CreateSource, CreateDestination and NewEventSource do to simulated clusters against it", NOTE2)
C["C25"] = ("TLA+ specification Gcl.tla; TLC validates histories of the real GlobalChangeLog against it", NOTE2)
C["C23"] = ("TLA+ specification Msk.tla; TLC validates the AWS calls, connections and SASL exchanges of the real MskCluster against it", "Bounded: seeded scenarios run on the unmodified code through its public API against an in-process stand-in for the MSK API and for brokers on loopback (TLS, SCRAM and IAM handshakes); every recorded history is checked step by step by TLC against the specification.")
MODEL = {"EosPipeline.tla": "C01 C02 C03 C04 C05 C07 C08", "EosRestore.tla": "C06", "SchedModel.tla": "C09", "BatcherModel.tla": "C10",
         "BalanceModel.tla": "C12 C13"}
for m, ps in MODEL.items():
    for i in ps.split():
        C[i] = (C[i][0] + "; and exhaustively explores a TLA+ model of the mechanism (%s) against the same guards" % m, C[i][1])
PENDING = "C11 C12 C13 C18 C19 C20 C21 C22 C23 C25 C27".split()
for i in C:
    if i in PENDING:
        PENDING.remove(i)
NA = {i: "check not built yet" for i in PENDING}
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                      technique=t, level="model_checking", level_note=n) for i, (t, n) in sorted(C.items())],
         not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
