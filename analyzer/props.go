package main

type propDef struct {
	level       string
	explain     string
	assumptions []string
	minObs      int
	run         func(*Ctx)
}

const mustExplain = "Must-facts dataflow over the SSA form of the current tree: for every path of the anchored functions (callee success/failure exits composed in), the set of comparisons, calls and assignments established is computed and each listed obligation is looked up in it, at the exit or at the call site named. "

var props = map[string]*propDef{}

func reg(id string, min int, extra string, fns ...func(*Ctx)) {
	props[id] = &propDef{level: "other", explain: mustExplain + extra, minObs: min, run: func(c *Ctx) {
		runRules(c, id)
		for _, f := range fns {
			f(c)
		}
	}}
}

func init() {
	reg("C01", 20, "")
	reg("C02", 20, "")
	reg("C03", 50, "")
	reg("C04", 30, "")
	reg("C05", 30, "")
	reg("C06", 60, "")
	reg("C07", 40, "")
	reg("C08", 80, "")
	reg("C09", 60, "")
	reg("C10", 500, "Constant propagation evaluates the instruction tables; each entry is compared with the instruction specification and with the stack, memory, program-counter and state effects extracted from its implementation's SSA.", (*Ctx).evmTable)
	reg("C11", 30, "The state effect of every instruction and precompiled contract implementation is inferred through the call graph.", (*Ctx).staticCall)
	reg("C12", 30, "")
	reg("C13", 35, "", (*Ctx).determinism)
	reg("C14", 30, "")
	reg("C16", 30, "")
	reg("C22", 35, "")
	reg("C17", 10, "", (*Ctx).wire)
	reg("C18", 10, "", (*Ctx).hashCoverage)
	reg("C19", 20, "")
	reg("C30", 20, "")
	reg("C23", 400, "Must-locksets are propagated through every function and call chain; each access of a guarded field and each call of a function that needs a lock is checked against the table of what each lock protects.", (*Ctx).guards)
	reg("C24", 100, "For every call made with a mutex held, the mutexes the callee may take (transitively, by access path) are compared with it; the order in which mutexes nest must be acyclic; every path out of a function releases what it took.", (*Ctx).deadlocks)
	reg("C34", 200, "In every function, each dereference of a result that comes with an error is matched with a dominating test of that error or result.", (*Ctx).errUseAll)
	reg("C20", 800, "Every function reachable from the handlers of peers' messages is scanned for statements that end the process.", (*Ctx).peerCrash)
	reg("C21", 80, "")
	reg("C35", 38, "")
	reg("C25", 60, "")
	reg("C26", 30, "")
	reg("C27", 20, "")
	reg("C29", 60, "Every client call site is traced to its operation code, request encoding and response decoding and compared, by wire layout, with the handler the operation tables name.", (*Ctx).rpcCodec)
	reg("C31", 70, "")
	reg("C32", 40, "")
	reg("C15", 60, "The key layout (constant prefix and segment lengths) and value codec of every database access are extracted and compared pairwise.", (*Ctx).schema)
}
