package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// peerRoots: the functions that run on data a remote peer chose.
var peerRoots = []string{
	"cluster/master.(*ProtocolManager).handle",
	"cluster/master.(*ProtocolManager).handleMsg",
	"cluster/slave.(*SlaveServerSideOp).AddTransactions",
	"cluster/slave.(*SlaveServerSideOp).HandleNewMinorBlock",
	"cluster/slave.(*SlaveServerSideOp).HandleNewTip",
	"cluster/slave.(*SlaveServerSideOp).GetMinorBlockList",
	"cluster/slave.(*SlaveServerSideOp).GetMinorBlockHeaderList",
	"cluster/slave.(*SlaveServerSideOp).GetMinorBlockHeaderListWithSkip",
	"cluster/sync.(*synchronizer).loop",
	"cluster/slave.(*SlaveServerSideOp).AddRootBlock",
	"cluster/slave.(*SlaveServerSideOp).AddMinorBlockListForSync",
	"p2p.(*Peer).run",
	"p2p.(*Server).SetupConn",
}

// termination: what makes the process end at this instruction ("" if nothing).
func termination(in ssa.Instruction) (kind, msg string) {
	switch x := in.(type) {
	case *ssa.Panic:
		return "panic", constText(x.X, 0)
	case ssa.CallInstruction:
		cm := x.Common()
		if _, ok := in.(*ssa.Go); ok {
			return "", ""
		}
		g := cm.StaticCallee()
		if g == nil {
			if cm.IsInvoke() && (cm.Method.Name() == "Crit" || strings.HasPrefix(cm.Method.Name(), "Fatal")) && len(cm.Args) > 0 {
				return cm.Method.Name(), constText(cm.Args[0], 0)
			}
			return "", ""
		}
		p := ""
		if g.Pkg != nil {
			p = g.Pkg.Pkg.Path()
		}
		switch {
		case p == "os" && g.Name() == "Exit":
			return "os.Exit", ""
		case strings.HasSuffix(p, "/log") && g.Name() == "Crit":
			return "log.Crit", constText(cm.Args[0], 0)
		case p == "log" && (strings.HasPrefix(g.Name(), "Fatal") || strings.HasPrefix(g.Name(), "Panic")):
			return "log." + g.Name(), ""
		case strings.HasSuffix(p, "cmd/utils") && g.Name() == "Fatalf":
			return "Fatalf", ""
		}
	}
	return "", ""
}

// constText: the constant text of a message, looking through conversions, Sprintf and errors.New.
func constText(v ssa.Value, d int) string {
	if d > 6 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value)
		}
	case *ssa.MakeInterface:
		return constText(x.X, d+1)
	case *ssa.ChangeInterface:
		return constText(x.X, d+1)
	case *ssa.BinOp:
		return constText(x.X, d+1) + constText(x.Y, d+1)
	case *ssa.Call:
		if len(x.Call.Args) > 0 {
			return constText(x.Call.Args[0], d+1)
		}
	}
	return ""
}

// crashAllowed: the process-ending statements code reached by peers may contain, by message (or, for
// a message without constant text, by function), with the reason no peer can trigger them.
var crashAllowed = []struct{ key, why string }{
	{"bug should fix", "a root block without its ancestors in the database: root blocks are stored only after their parent (C15)"},
	{"mysteriously missing blocks", "a stored block without its ancestors in the database (C15)"},
	{"hash %v is missing from DB which is not expected", "the start hash was found and every stored root block has its parent (C15)"},
	{"broadcast root block timeout height:%d err:%s", "a slave does not take a root block the master validated: the cluster stops rather than diverge (C27)"},
	{"unforeseen event from %s, api %s", "an operation code missing from the table, chosen by local code (C29)"},
	{"empty executable name, set Config.Name", "local configuration"},
	{"cluster/shard.(*ShardBackend).setHead", "local database failure while moving the head"},
	{"data's len should <= 32", "balances and gas prices fit 256 bits"},
	{"unknown character %v", "token names come from local configuration"},
	{"name too long", "token names come from local configuration"},
	{"fill in seedCache fail.", "index arithmetic of the seed cache"},
	{"can't find Read method on hash", "library contract"},
	{"Unexpected result: len(addrs) > length\n", "window bookkeeping of PoSW (C03)"},
	{"Left should exist", "tree invariant"},
	{"rotating a black link", "tree invariant"},
	{"gas pool pushed above uint64", "gas returned never exceeds gas taken (C06)"},
	{"get genesis block is nil", "the genesis block is stored before the shard runs"},
	{"bug fix block can not be nil", "the block was found just before"},
	{"core.(*MinorBlockChain).WriteBlockWithState", "local database failure"},
	{"core.(*RootBlockChain).GetBlockCount", "local database content"},
	{"core.(*RootBlockChain).insert", "local database failure"},
	{"input block for ValidateBlock is nil", "callers pass decoded blocks"},
	{"invalid type of block", "static block type of the chain"},
	{"not implement", "method of the other chain's validator, never called on it"},
	{"core.encodeAddressTxKey", "serialising a fixed-size address cannot fail"},
	{"revision id %v cannot be reverted", "snapshots are reverted by the frame that took them (C08)"},
	{"Refund counter below zero", "refunds are only taken back after being given"},
	{"can't encode object at %x: %v", "encoding an account cannot fail"},
	{"core/state.(*StateDB).updateStateObject", "encoding an account cannot fail"},
	{"unknown trie type %T", "static trie type"},
	{"len should <=1", "test-only account format, not used with the production configuration"},
	{"bloom bytes too big %d %d", "bloom of fixed width"},
	{"core/types.(*MinorBlockHeader).GetTotalDifficulty", "only called on root headers (C22)"},
	{"core/types.(*TokenBalances).Commit", "local database failure"},
	{"core/types.(*TokenBalances).GetTokenBalance", "local database failure"},
	{"serious bug !!!!!!!!!!!!!", "balances are only reduced after the balance check (C06)"},
	{"core/types.(*Transaction).Hash", "re-encoding a decoded transaction cannot fail"},
	{"expect slice input for CalculateMerkleRoot", "static argument type"},
	{"txs count don't match receipts count.", "called with the receipts of the same transactions"},
	{"core/types.Receipts.Bytes", "encoding a receipt cannot fail"},
	{"bug fix : SystemContractScopeMap Must ContractScopeGlobal or  ContractScopeLocalChain0 ", "static table"},
	{"No supported ewasm interpreter yet.", "local configuration"},
	{"nil pubkey", "keys generated locally"},
	{"invalid error code", "local constants"},
	{"invalid AES secret: ", "the secret has the hash's width"},
	{"invalid MAC secret: ", "the secret has the hash's width"},
	{"Write called", "not a peer connection"},
	{"cluster/master.(*ProtocolManager).HandleGetRootBlockHeaderListRequest", "see above"},
}

// peerCrash: no statement that ends the process is reachable from the handlers of peers' messages,
// except those listed, whose condition a peer cannot bring about.
func (c *Ctx) peerCrash() {
	var roots []*ssa.Function
	for _, r := range peerRoots {
		if f := c.fn(r, "root"); f != nil {
			roots = append(roots, f)
		}
	}
	stop := func(f *ssa.Function) bool { return objFull(f) == "cluster/shard.New" }
	from := c.w.reach(roots, stop)
	allow := map[string]bool{}
	for _, a := range crashAllowed {
		allow[a.key] = true
	}
	memo := map[*ssa.Function]bool{}
	var okf func(f *ssa.Function, d int) bool
	okf = func(f *ssa.Function, d int) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if allow[objFull(f)] {
			return true
		}
		if v, ok := memo[f]; ok {
			return v
		}
		memo[f] = false
		if d > 4 || f.Object() == nil || f.Object().Exported() {
			return false
		}
		n, all := 0, true
		for _, ci := range c.w.callers[f] {
			if strings.HasSuffix(c.w.fset.Position(ci.Pos()).Filename, "_test.go") {
				continue
			}
			n++
			all = all && okf(ci.Parent(), d+1)
		}
		memo[f] = n > 0 && all
		return memo[f]
	}
	var fs []*ssa.Function
	for f := range from {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return objFull(fs[i]) < objFull(fs[j]) })
	n := 0
	for _, f := range fs {
		if f.Synthetic != "" && f.Object() == nil || len(f.Blocks) == 0 {
			continue
		}
		n++
		c.funcs[objFull(f)] = true
		bad := ""
		var at ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k, m := termination(in)
				if k == "" || m == "blocking select matched no case" {
					continue
				}
				if m != "" && allow[m] || okf(f, 0) {
					continue
				}
				if pkgPathOf(f) == "core/rawdb" && k == "log.Crit" && writesDB(f) {
					continue // the local database fails
				}
				bad, at = k+"("+m+")", in
			}
		}
		if bad != "" {
			c.fail("crash", c.w.pos(at.Pos())+" in "+objFull(f), "a peer's message can end the process: "+bad+" reached by "+c.w.chain(from, f))
		} else {
			c.ok("crash", objFull(f), "ends the process only for local failures")
		}
	}
	c.check(n > 800, "crash", "reach", "functions reachable from peer handlers were found")
	// answers delivered by other goroutines have the type the peer chose to answer with
	for _, f := range c.w.all {
		if p := pkgPathOf(f); p != "cluster/master" && p != "cluster/sync" && p != "p2p" || strings.HasSuffix(c.w.fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || !fromChan(ta.X, map[ssa.Value]bool{}) {
					continue
				}
				c.check(ta.CommaOk, "assert", c.w.pos(ta.Pos())+" in "+objFull(f), "the type of a received answer is tested, not assumed")
			}
		}
	}
}

// fromChan: the interface value was received from a channel.
func fromChan(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Select:
			return x.Index >= 2
		case *ssa.UnOp:
			return y.Op == token.ARROW && x.Index == 0
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromChan(e, seen) {
				return true
			}
		}
	case *ssa.ChangeInterface:
		return fromChan(x.X, seen)
	}
	return false
}

// writesDB: the function was handed something it can write to.
func writesDB(f *ssa.Function) bool {
	for _, p := range f.Params {
		it, ok := p.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if n := it.Method(i).Name(); n == "Put" || n == "Delete" {
				return true
			}
		}
	}
	return false
}
