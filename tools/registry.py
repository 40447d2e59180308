"""Which models and which recorded executions decide each property."""
SESSION = {"module": "Session.tla", "cfg": "MCSession.cfg", "workers": 2}
PROPS = {
 "C01": dict(models=[SESSION], parts=[dict(cmd="C01", spec="TraceSession")], must_see=["means", "flush"]),
 "C02": dict(models=[SESSION], parts=[dict(cmd="C02", spec="TraceSession")]),
 "C03": dict(models=[SESSION], parts=[dict(cmd="C03", spec="TraceSession")]),
 "C04": dict(models=[SESSION], parts=[dict(cmd="C04", spec="TraceSession")]),
 "C07": dict(models=[SESSION], parts=[dict(cmd="C07", spec="TraceSession")]),
 "C08": dict(models=[SESSION], parts=[dict(cmd="C08", spec="TraceSession"), dict(cmd="C08C", spec="TraceSession", bin="checked")], build=[["cargo", "build", "--profile", "checked", "--offline", "-q"]]),
 "C11": dict(models=[SESSION], parts=[dict(cmd="C11", spec="TraceSession")]),
 "C15": dict(models=[SESSION], parts=[dict(cmd="C15", spec="TraceSession")]),
}
HOOKS = {"guard": "cfg divans_verif", "enable": "harness/.cargo/config.toml passes --cfg divans_verif: ProbRange, the return type of a public trait, can be named", "source_commits": ["57c30471143e496c2a319c3c17cd74616eadfd65"]}
TECH = {"*": "TLA+ specification model-checked with TLC; traces recorded from the real code validated against it by TLC"}
NOTE = {"*": "The models are checked exhaustively within small bounds; the binding to the code is by recorded executions of the current tree, each step of which TLC must accept as a step of the specification: what was executed is decided, what was not is not."}
PENDING = "not yet bound to the code: the specification for it is being written"
PROPS.update({
 "C09": dict(models=[dict(module="MuxDesign.tla", cfg="MuxDesign.cfg", thorough="MuxDesignT.cfg")], parts=[dict(cmd="C09", spec="TraceWire")], must_see=["ser", "de", "take", "fin"]),
 "C12": dict(models=[dict(module="MuxDesign.tla", cfg="MuxDesign.cfg", thorough="MuxDesignT.cfg")], parts=[dict(cmd="C12", spec="TraceWire")], must_see=["stream", "resliced"]),
})
PROPS.update({
 "C10": dict(models=[dict(module="RecodeDesign.tla", cfg="RecodeDesign.cfg", thorough="RecodeDesignT.cfg")], parts=[dict(cmd="C10", spec="TraceReplay")], must_see=["call", "bcall", "windowed", "tells"]),
})
PROPS.update({
 "C17": dict(models=[], parts=[dict(cmd="C17", spec="TraceProgram")], must_see=["program", "decoded"]),
})
PROPS.update({
 "C05": dict(models=[dict(module="HandoffDesign.tla", cfg="HandoffDesign.cfg", thorough="HandoffDesignT.cfg", workers=3), dict(module="HandoffDesign.tla", cfg="HandoffDesign2.cfg", thorough="HandoffDesign2T.cfg", workers=3)],
             parts=[dict(cmd="C05", spec="TraceHandoff"), dict(cmd="C05S", spec="TraceSession")], must_see=["inv", "ret", "blk", "race", "start"]),
})
PROPS.update({
 "C06": dict(models=[dict(module="LifeDesign.tla", cfg="LifeDesign.cfg", thorough="LifeDesignT.cfg")], parts=[dict(cmd="C06", spec="TraceLedger")], must_see=["alloc", "free", "release", "gone"]),
})
PROPS.update({
 "C16": dict(models=[dict(module="BuffersDesign.tla", cfg="BuffersDesign.cfg", thorough="BuffersDesignT.cfg")], parts=[dict(cmd="C16", spec="TraceBuffers")], must_see=["take", "give", "swap", "look", "view", "poke", "pair"]),
})
PROPS.update({
 "C14": dict(models=[dict(module="CApi.tla", cfg="MCCApi.cfg", thorough="MCCApiT.cfg", workers=4), SESSION], parts=[dict(cmd="C14", spec="TraceCApi")], must_see=["set", "native", "mem", "lent", "null", "means", "dec"]),
})
PROPS.update({
 "C13": dict(models=[dict(module="ReaderDesign.tla", cfg="ReaderDesign.cfg", thorough="ReaderDesignT.cfg", workers=4)], parts=[dict(cmd="C13", spec="TraceAdapter")], must_see=["src", "snk", "read", "write", "fl", "means"]),
})
PROPS.update({
 "C19": dict(models=[SESSION], parts=[dict(cmd="C19", spec="TraceSession")], must_see=["start", "dec", "end"]),
})
import os
_V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS.update({
 "C20": dict(models=[], parts=[dict(cmd="C20", spec="TraceCli")], must_see=["put", "text", "damage", "run"],
             build=[["cargo", "build", "--release", "--offline", "-q", "--manifest-path", "/repo/Cargo.toml", "--bin", "divans", "--target-dir", _V + "/target/cli"]]),
})
ANS = [dict(module="AnsDesign.tla", cfg="AnsDesign.cfg", thorough="AnsDesignT.cfg", workers=2), dict(module="AnsDesign.tla", cfg="AnsDesign2.cfg", workers=2)]
PROPS.update({
 "C18": dict(models=ANS + [dict(module="ModelDesign.tla", cfg="ModelDesign.cfg", thorough="ModelDesignT.cfg", workers=3)], parts=[dict(cmd="C18", spec="TraceCoder")], must_see=["seen", "mixed", "sweep", "put", "got"]),
})
PROPS["C19"] = dict(models=[SESSION] + ANS[1:], parts=[dict(cmd="C19", spec="TraceSession"), dict(cmd="C19E", spec="TraceEntropy"), dict(cmd="C19F", spec="TraceFormat")], must_see=["start", "dec", "end", "seen", "mixed", "sweep", "stream", "speeds", "reading"])

# models of designs known to be wrong: TLC has to find what is wrong with each
for _p, _n, _k in (("C05", "Handoff", 5), ("C06", "Life", 2), ("C09", "Mux", 4), ("C10", "Recode", 4), ("C13", "Reader", 1), ("C16", "Buffers", 1), ("C18", "Model", 3), ("C19", "Ans", 3)):
    PROPS[_p]["refute"] = [f"{_n}Broken{_i}.cfg" for _i in range(1, _k + 1)]
