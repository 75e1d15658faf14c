package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What each lock protects. A read needs the lock in either mode, a write needs it exclusively.
// Several locks: any of them (writes need the one all readers share, so writes need the first).
var guardTable = []struct {
	strct, lock string
	fields      string
}{
	{"cluster/master.Peer", "cluster/master.Peer.lock", "rpcId head"},
	{"cluster/master.Peer", "cluster/master.Peer.chanLock", "chans"},
	{"cluster/master.QKCMasterBackend", "cluster/master.QKCMasterBackend.lock", "branchToShardStats txCountHistory"},
	{"cluster/master.peerSet", "cluster/master.peerSet.lock", "peers closed"},
	{"cluster/miner.Miner", "cluster/miner.Miner.mu", "isMining stopCh"},
	{"cluster/rpc.rpcClient", "cluster/rpc.rpcClient.mu", "connVals"},
	{"cluster/service.Node", "cluster/service.Node.lock", "services serviceFuncs grpcHandler grpcListener httpHandler httpListener ipcHandler ipcListener rpcAPIs stop wsHandlerList wsListenerList instanceDirLock"},
	{"cluster/service.ServiceContext", "cluster/service.ServiceContext.mu", "timestamp"},
	{"cluster/shard.ShardBackend", "cluster/shard.ShardBackend.mu", "running"},
	{"cluster/shard.newBlockPool", "cluster/shard.newBlockPool.Mu", "BlockPool"},
	{"cluster/slave.ConnManager", "cluster/slave.ConnManager.mu", "fullShardIdToSlaves slavesConn artificialTxConfig"},
	{"cluster/slave.PublicFilterAPI", "cluster/slave.PublicFilterAPI.hashMu", "hashMap"},
	{"cluster/slave.SlaveBackend", "cluster/slave.SlaveBackend.lock", "shards"},
	{"cluster/sync.synchronizer", "cluster/sync.synchronizer.mu", "running"},
	{"consensus.CommonEngine", "consensus.CommonEngine.lock", "threads"},
	{"consensus.currentWorks", "consensus.currentWorks.mu", "works"},
	{"consensus/ethash.lru", "consensus/ethash.lru.mu", "cache future futureItem"},
	{"consensus/qkchash.cacheSeed", "consensus/qkchash.cacheSeed.mu", "caches"},
	{"core.MinorBlockChain", "core.MinorBlockChain.mu", "heightToMBlockHashCount heightToMinorBlockHashes minRecordMinorBlock lastDereferenceRoot"},
	{"core.MinorBlockChain", "core.MinorBlockChain.coinbaseAmountMu", "coinbaseAmountCache"},
	{"core.RootBlockChain", "core.RootBlockChain.mu", "coinbaseAmountCache"},
	{"core.RootBlockChain", "core.RootBlockChain.chainmu", "gcproc"},
	{"core.TxPool", "core.TxPool.mu", "beats pending queue currentMaxGas currentState gasPrice pendingNonces priced"},
	{"core.txLookup", "core.txLookup.lock|core.TxPool.mu", "all"},
	{"core.txNoncer", "core.txNoncer.lock", "nonces fallback"},
	{"core.txPricedList", "core.TxPool.mu", "items stales"},
	{"core.txList", "core.TxPool.mu", "strict txs gascap costcap"},
	{"core/state.ManagedState", "core/state.ManagedState.mu", "accounts"},
	{"core/state.cachingDB", "core/state.cachingDB.mu", "pastTries"},
	{"core/vm.intPoolPool", "core/vm.intPoolPool.lock", "pools"},
	{"internal/debug.HandlerT", "internal/debug.HandlerT.mu", "cpuFile cpuW traceFile traceW"},
	{"p2p.Server", "p2p.Server.lock", "running"},
	{"p2p/discover.Table", "p2p/discover.Table.mutex", "buckets ips rand nodeUrls"},
	{"p2p/nodefilter.blackNodes", "p2p/nodefilter.blackNodes.mu", "dialinBlacklist dialoutBlacklist"},
	{"rpc.Notifier", "rpc.Notifier.subMu", "active inactive buffer"},
	{"rpc.Server", "rpc.Server.codecsMu", "codecs"},
}

// Functions that change a chain's canonical state, and the lock that makes them one at a time.
var heldTable = []struct{ fns, lock string }{
	{"core.(*MinorBlockChain).insertChain core.(*MinorBlockChain).WriteBlockWithState core.(*MinorBlockChain).WriteBlockWithoutState core.(*MinorBlockChain).insertSidechain core.(*MinorBlockChain).reorg core.(*MinorBlockChain).setHead core.(*MinorBlockChain).updateTip core.(*MinorBlockChain).putTxIndexFromBlock core.(*MinorBlockChain).removeTxIndexFromBlock core.(*MinorBlockChain).putTxHistoryIndex core.(*MinorBlockChain).removeTxHistoryIndex", "core.MinorBlockChain.chainmu"},
	{"core.(*MinorBlockChain).putMinorBlock core.(*MinorBlockChain).putTotalTxCount core.(*MinorBlockChain).putConfirmedCrossShardTransactionDepositList core.(*MinorBlockChain).putXShardDepositHashList", "core.MinorBlockChain.mu"},
	{"core.(*RootBlockChain).insertChain core.(*RootBlockChain).WriteBlockWithState core.(*RootBlockChain).WriteBlockWithoutState core.(*RootBlockChain).insertSidechain core.(*RootBlockChain).reorg core.(*RootBlockChain).PutRootBlockIndex core.(*RootBlockChain).PutRootBlockConfirmingMinorBlock", "core.RootBlockChain.chainmu"},
	{"core.(*RootBlockChain).insert core.(*RootBlockChain).reorg core.(*RootBlockChain).PutRootBlockIndex", "core.RootBlockChain.mu"},
	{"core.(*TxPool).add core.(*TxPool).addTxsLocked core.(*TxPool).enqueueTx core.(*TxPool).promoteTx core.(*TxPool).promoteExecutables core.(*TxPool).demoteUnexecutables core.(*TxPool).removeTx core.(*TxPool).reset core.(*TxPool).truncatePending core.(*TxPool).truncateQueue core.(*TxPool).validateTx", "core.TxPool.mu"},
	{"cluster/shard.(*ShardBackend).setHead cluster/shard.(*ShardBackend).broadcastNewTip", "cluster/shard.ShardBackend.mu"},
	{"p2p.(*qkcRlp).readQKCMsg", "p2p.rlpx.rmu"},
	{"p2p.(*qkcRlp).writeQKCMsg", "p2p.rlpx.wmu"},
}

func (c *Ctx) guards() {
	w := c.w
	l := w.locksets()
	want := map[string]string{}
	for _, g := range guardTable {
		for _, f := range strings.Fields(g.fields) {
			want[g.strct+"."+f] = g.lock
		}
	}
	seen := map[string]bool{}
	for _, f := range w.all {
		if excludedPkg(f) {
			continue
		}
		w.fieldAccesses(f, func(n string) bool { return want[n] != "" }, func(a fieldAccess) {
			h, ok := l.at[a.in]
			if !ok {
				return
			}
			need := byte(1)
			if a.write {
				need = 2
			}
			good := false
			for _, k := range strings.Split(want[a.field], "|") {
				if h[k] >= need {
					good = true
				}
			}
			name := objFull(f)
			c.funcs[name] = true
			c.nSites++
			seen[a.field] = true
			what, mode := "read", "held"
			if a.write {
				what, mode = "changed", "held exclusively"
			}
			c.check(good, "shared data is only touched with its lock held", fmt.Sprintf("%s (%s)", name, w.pos(a.in.Pos())), fmt.Sprintf("%s is %s with %s %s", a.field, what, want[a.field], mode)+l.why(f, good))
		})
	}
	for _, h := range heldTable {
		for _, n := range strings.Fields(h.fns) {
			for f := range l.entry {
				if objFull(f) != n {
					continue
				}
				for _, s := range l.sites[f] {
					at, ok := l.at[s.in]
					if !ok || s.fresh && s.kind != 'g' {
						continue
					}
					if s.kind == 'd' {
						at = l.deferHeld(s.in.(*ssa.Defer), at)
					}
					if s.kind == 'g' {
						at = nil
					}
					c.nSites++
					c.check(at[h.lock] == 2, "changes of the shared state are made one at a time", fmt.Sprintf("%s (%s)", objFull(s.in.Parent()), w.pos(s.in.Pos())), fmt.Sprintf("%s is called with %s held exclusively", n, h.lock)+l.why(s.in.Parent(), at[h.lock] == 2))
				}
			}
		}
	}
	var miss []string
	for k := range want {
		if !seen[k] {
			miss = append(miss, k)
		}
	}
	sort.Strings(miss)
	for _, k := range miss {
		c.notes = append(c.notes, "no access of "+k)
	}
}

// why: how the function is reached without locks
func (l *locks) why(f *ssa.Function, good bool) string {
	if good {
		return ""
	}
	if r, ok := l.root[f]; ok {
		return "; the function is entered with no lock held (" + r + ")"
	}
	for _, s := range l.sites[f] {
		if h, ok := l.at[s.in]; ok && len(h) == 0 && !s.fresh {
			return "; it is called with no lock held at " + l.w.pos(s.in.Pos()) + " in " + objFull(s.in.Parent())
		}
	}
	return ""
}
