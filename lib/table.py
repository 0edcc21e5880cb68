R = "cases are the cross product named in `bounds`; each runs the real pipeline and is compared byte for byte with the reference model; distinct outcomes are counted by a hash of all output"
def h(prop, **kw):
    return dict(prop=prop, rule=R, **kw)

PROPS = {
    "C01": h("dump-format"),
    "C02": h("text-input"),
    "C03": h("assemble"),
    "C04": h("cut"),
    "C05": h("pad"),
    "C06": h("patch"),
    "C07": h("width"),
    "C08": h("find"),
    "C09": h("walk"),
    "C10": h("slice"),
    "C11": h("guide"),
    "C12": h("regex"),
    "C13": h("invert"),
    "C14": h("extend"),
    "C15": h("merge"),
    "C16": h("lines"),
    "C17": h("output"),
    "C18": h("patch-back"),
    "C19": h("compose"),
    "C20": h("chunking"),
    "C21": h("roundtrip"),
    "C22": h("grammar", agree=True, quick="same"),
    "C23": h("expr"),
    "C24": h("format", env={"NDV_MAX": "12"}),
    "C25": dict(kind="faults", families=["inplace", "inplace_piped"], rule="every system call of every scenario x every fault listed for its kind; outcomes are counted by exit status, output and files left"),
    "C27": dict(prop="schedules", roots=["nd_sched.rs", "nd.rs", "nd_ext.rs"], quick=[("x86-64", 256, "quick", 8)], thorough=[("x86-64", 256, "thorough", 8)],
                rule="every schedule, up to the commutation of independent operations, of every case named in `bounds`; the outcome of each is compared with the reference model"),
    "C28": dict(prop="streaming", roots=["nd_mem.rs", "nd_ext.rs"], quick=[("x86-64", 256, "quick", 8)], thorough=[("x86-64", 256, "thorough", 8), ("x86-64-v3", 1024, "quick", 8)],
                rule="each case runs one configuration on three streams, the longest of which is eight times the second, on the real pipeline under a counting allocator; outcomes are counted by the peaks of the heap"),
    "C29": h("values"),
    "C31": dict(kind="large", rule="every command of every family around every edge, run as a process of its own on files with holes and compared with what a model of streams as lists of pieces gives; outcomes are counted by exit status, output and files"),
    "C32": dict(kind="huge", rule="every spelling of every number at every place that takes one, run as a process of its own in both builds and compared with what unbounded integers give; outcomes are counted by place, exit status and output"),
    "C33": dict(kind="memory", rule="the cases of the properties named in `jobs`, each run under AddressSanitizer and again without it on memory filled differently; distinct outcomes are counted by a hash of all output"),
    "C30": dict(kind="proc", rule="every variant of every command is run as a process of its own and compared with the plain form of the command in another build; outcomes are counted by exit status, output and files"),
    "C26": dict(kind="faults", families=["streams", "streams_piped", "refused"], rule="every system call of every scenario x every fault listed for its kind; outcomes are counted by exit status, output and files left"),
}
