From fe5231b928d17726c0b2f2d11610e15af555912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:12 +0000
Subject: [PATCH 01/43] fix: restore token trie and database when a balance
 change is reverted

---
 core/state/journal.go      | 15 +++++----------
 core/state/state_object.go | 10 ++++++++--
 core/state/statedb.go      |  4 ++--
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/core/state/journal.go b/core/state/journal.go
index ba3461a..13139a2 100644
--- a/core/state/journal.go
+++ b/core/state/journal.go
@@ -17,8 +17,7 @@
 package state
 
 import (
-	"math/big"
-
+	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 )
 
@@ -95,13 +94,13 @@ type (
 	suicideChange struct {
 		account     *common.Address
 		prev        bool // whether account had already suicided
-		prevbalance map[uint64]*big.Int
+		prevbalance *types.TokenBalances
 	}
 
 	// Changes to individual accounts.
 	balanceChange struct {
 		account *common.Address
-		prev    map[uint64]*big.Int
+		prev    *types.TokenBalances
 	}
 	nonceChange struct {
 		account *common.Address
@@ -154,7 +153,7 @@ func (ch suicideChange) revert(s *StateDB) {
 	obj := s.getStateObject(*ch.account)
 	if obj != nil {
 		obj.suicided = ch.prev
-		obj.setBalances(ch.prevbalance)
+		obj.setTokenBalances(ch.prevbalance)
 	}
 }
 
@@ -172,11 +171,7 @@ func (ch touchChange) dirtied() *common.Address {
 }
 
 func (ch balanceChange) revert(s *StateDB) {
-	prev := make(map[uint64]*big.Int)
-	for k, v := range ch.prev {
-		prev[k] = v
-	}
-	s.getStateObject(*ch.account).setBalances(prev)
+	s.getStateObject(*ch.account).setTokenBalances(ch.prev)
 }
 
 func (ch balanceChange) dirtied() *common.Address {
diff --git a/core/state/state_object.go b/core/state/state_object.go
index c58f99c..69623ef 100644
--- a/core/state/state_object.go
+++ b/core/state/state_object.go
@@ -321,7 +321,7 @@ func (c *stateObject) SubBalance(amount *big.Int, tokenID uint64) {
 func (self *stateObject) SetBalance(amount *big.Int, tokenID uint64) {
 	self.db.journal.append(balanceChange{
 		account: &self.address,
-		prev:    self.data.TokenBalances.GetBalanceMap(),
+		prev:    self.data.TokenBalances.CopyWithDB(),
 	})
 	self.setTokenBalance(amount, tokenID)
 }
@@ -329,7 +329,7 @@ func (self *stateObject) SetBalance(amount *big.Int, tokenID uint64) {
 func (self *stateObject) SetBalances(balances map[uint64]*big.Int) {
 	self.db.journal.append(balanceChange{
 		account: &self.address,
-		prev:    self.data.TokenBalances.GetBalanceMap(),
+		prev:    self.data.TokenBalances.CopyWithDB(),
 	})
 	self.setBalances(balances)
 }
@@ -342,6 +342,12 @@ func (self *stateObject) setBalances(balances map[uint64]*big.Int) {
 	self.data.TokenBalances = types.NewTokenBalancesWithMap(balances)
 }
 
+// setTokenBalances restores previously journalled balances, including the token
+// trie and its database.
+func (self *stateObject) setTokenBalances(balances *types.TokenBalances) {
+	self.data.TokenBalances = balances
+}
+
 // Return the gas back to the origin. Used by the Virtual machine or Closures
 func (c *stateObject) ReturnGas(gas *big.Int) {}
 
diff --git a/core/state/statedb.go b/core/state/statedb.go
index 9215734..239e6c8 100644
--- a/core/state/statedb.go
+++ b/core/state/statedb.go
@@ -403,7 +403,7 @@ func (s *StateDB) Suicide(addr common.Address) bool {
 	s.journal.append(suicideChange{
 		account:     &addr,
 		prev:        stateObject.suicided,
-		prevbalance: stateObject.data.TokenBalances.GetBalanceMap(),
+		prevbalance: stateObject.data.TokenBalances.CopyWithDB(),
 	})
 	stateObject.markSuicided()
 	stateObject.data.TokenBalances, _ = types.NewTokenBalances([]byte{}, s.db.TrieDB())
@@ -532,7 +532,7 @@ func (s *StateDB) createObject(addr common.Address) (newobj, prev *stateObject)
 func (s *StateDB) CreateAccount(addr common.Address) {
 	new, prev := s.createObject(addr)
 	if prev != nil {
-		new.setBalances(prev.data.TokenBalances.GetBalanceMap())
+		new.setTokenBalances(prev.data.TokenBalances.CopyWithDB())
 	}
 }
 
-- 
2.43.0


From 71783863233f634a869fbb08da514ed29ef20858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:19 +0000
Subject: [PATCH 02/43] fix: range-check the whole token id in mintMNT and
 balanceMNT

The 256-bit token id argument was truncated to 64 bits before it was compared
with TOKENIDMAX, so an out-of-range id was silently treated as another token.
transferMnt already compares the untruncated value.
---
 core/vm/contracts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index cb8d8b7..cdb99c5 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -705,7 +705,7 @@ func (m *mintMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, error
 	}
 
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
@@ -755,7 +755,7 @@ func (m *balanceMNT) Run(input []byte, evm *EVM, contract *Contract) ([]byte, er
 	mntBytes := getData(input, 32, 32)
 	mnt := new(big.Int).SetBytes(mntBytes)
 	// Token ID should be within range
-	if mnt.Uint64() > qCommon.TOKENIDMAX {
+	if mnt.Cmp(new(big.Int).SetUint64(qCommon.TOKENIDMAX)) > 0 {
 		return nil, fmt.Errorf("tokenid %v > TOKENIDMAX %v", mnt, qCommon.TOKENIDMAX)
 	}
 
-- 
2.43.0


From a61982383e5ca4f3e3c0548c6334e3a8abb73cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:19 +0000
Subject: [PATCH 03/43] fix: reject system contract indexes beyond the int
 range

An index of 2^63 or more became negative when converted to int, passed the
upper bound check and panicked, so one transaction could stop every node.
---
 core/vm/contracts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/vm/contracts.go b/core/vm/contracts.go
index cdb99c5..e684779 100644
--- a/core/vm/contracts.go
+++ b/core/vm/contracts.go
@@ -643,7 +643,7 @@ func (r *deploySystemContract) Run(input []byte, evm *EVM, contract *Contract) (
 	if index > 0 {
 		contractIndex = int(index)
 	}
-	if int(contractIndex) >= len(SystemContracts) {
+	if contractIndex < 0 || contractIndex >= len(SystemContracts) {
 		contract.Gas = 0
 		return nil, ErrInvalidSystemContractIndex
 	}
-- 
2.43.0


From 0c0ac3bd8ed3d92da6c50c97926e669906ce63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:26 +0000
Subject: [PATCH 04/43] fix: GetHashByHeight returns the hash at the requested
 height

It looked the canonical hash up, and then returned the hash of the current
block, so eth_call, getBalance, getCode and getStorageAt at a past height
answered from the current state.
---
 core/minorblockchain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 8e1e66f..d9fd586 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -599,6 +599,7 @@ func (m *MinorBlockChain) GetHashByHeight(height *uint64) (common.Hash, error) {
 		if bytes.Equal(common.Hash{}.Bytes(), hash.Bytes()) {
 			return hash, fmt.Errorf("shard %v do no have this  height  %v", m.branch.Value, *height)
 		}
+		return hash, nil
 	}
 	return m.CurrentBlock().Hash(), nil
 }
-- 
2.43.0


From 48b8c8be4adc6da20712396227cd2c0b07d0cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:26 +0000
Subject: [PATCH 05/43] fix: collect the minor headers of every dropped block
 in a root reorg

Only blocks above the height of the new head were counted, so the lookup
entries of headers in the other dropped blocks survived the reorg.
---
 core/rootblockchain.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 0492f8c..3bbca1c 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -832,6 +832,7 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 
 		oldChain = append(oldChain, oldBlock)
 		newChain = append(newChain, newBlock)
+		deletedHeaders = append(deletedHeaders, oldBlock.(*types.RootBlock).MinorBlockHeaders()...)
 
 		oldBlock, newBlock = bc.GetBlock(oldBlock.ParentHash()), bc.GetBlock(newBlock.ParentHash())
 		if oldBlock == nil {
-- 
2.43.0


From 08ac51c4b53ec0f2d88ce0b32b3f5820fdf91dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:26 +0000
Subject: [PATCH 06/43] fix: report a failed batch write in SetHead and reorg

The error was dropped, and the head moved on as if the deletions had been
written.
---
 core/minorblockchain.go | 8 ++++++--
 core/rootblockchain.go  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index d9fd586..439ab7a 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -324,7 +324,9 @@ func (m *MinorBlockChain) setHead(head uint64) error {
 		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeMinor, block.NumberU64())
 		m.currentBlock.Store(m.GetMinorBlock(block.ParentHash()))
 	}
-	batch.Write()
+	if err := batch.Write(); err != nil {
+		return err
+	}
 	if currentBlock := m.CurrentBlock(); currentBlock != nil {
 		if _, err := m.StateAt(currentBlock.GetMetaData().Root); err != nil {
 			// Rewound state missing, rolled back to before pivot, reset to genesis
@@ -1434,7 +1436,9 @@ func (m *MinorBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 		}
 	}
 
-	batch.Write()
+	if err := batch.Write(); err != nil {
+		return err
+	}
 
 	// Insert the new chain, taking care of the proper incremental order
 	for i := len(newChain) - 1; i >= 0; i-- {
diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 3bbca1c..9d2cdf1 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -205,7 +205,9 @@ func (bc *RootBlockChain) SetHead(head uint64) error {
 		rawdb.DeleteCanonicalHash(batch, rawdb.ChainTypeRoot, block.NumberU64())
 		bc.currentBlock.Store(bc.GetBlock(block.ParentHash()))
 	}
-	batch.Write()
+	if err := batch.Write(); err != nil {
+		return err
+	}
 	// Clear out any stale content from the caches
 	bc.blockCache.Purge()
 	bc.futureBlocks.Purge()
@@ -870,7 +872,9 @@ func (bc *RootBlockChain) reorg(oldBlock, newBlock types.IBlock) error {
 	for _, item := range diff {
 		rawdb.DeleteBlockContentLookupEntry(batch, item.Hash())
 	}
-	batch.Write()
+	if err := batch.Write(); err != nil {
+		return err
+	}
 
 	if len(oldChain) > 0 {
 		go func() {
-- 
2.43.0


From a19bbbeb7df0a0aeaf1cffebb65a676807438a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:26 +0000
Subject: [PATCH 07/43] fix: do not dereference an unknown previous root block
 in AddRootBlock

The nil check came after the first use: a root block confirming a remote
shard's block whose previous root block is unknown here crashed the slave.
---
 core/minorblockchain_addon.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 3dbad5d..267b1c9 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1019,8 +1019,11 @@ func (m *MinorBlockChain) AddRootBlock(rBlock *types.RootBlock) (bool, error) {
 		prevRootBlock := m.GetRootBlockByHash(mHeader.PrevRootBlockHash)
 
 		// prev_root_header can be None when the shard is not created at root height 0
-		t := prevRootBlock.Number()
-		if prevRootBlock == nil || prevRootBlock.Number() == uint32(m.clusterConfig.Quarkchain.GetGenesisRootHeight(m.branch.Value)) || !m.isNeighbor(mHeader.Branch, &t) {
+		var t uint32
+		if prevRootBlock != nil {
+			t = prevRootBlock.Number()
+		}
+		if prevRootBlock == nil || t == uint32(m.clusterConfig.Quarkchain.GetGenesisRootHeight(m.branch.Value)) || !m.isNeighbor(mHeader.Branch, &t) {
 			if data := m.ReadCrossShardTxList(h); data != nil {
 				errXshardListAlreadyHave := errors.New("already have")
 				log.Error(m.logInfo, "addrootBlock err-1", errXshardListAlreadyHave)
-- 
2.43.0


From 1192987d9ddb56aed4e049426a1558f5791618d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:39 +0000
Subject: [PATCH 08/43] fix: report a missing common ancestor instead of
 dereferencing nil in sync

---
 cluster/sync/minor_task.go | 3 +++
 cluster/sync/root_task.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cluster/sync/minor_task.go b/cluster/sync/minor_task.go
index 368148c..3f8a921 100644
--- a/cluster/sync/minor_task.go
+++ b/cluster/sync/minor_task.go
@@ -226,5 +226,8 @@ func (m *minorChainTask) findAncestor(bc blockchain) (*types.MinorBlockHeader, e
 			break
 		}
 	}
+	if bestAncestor == nil {
+		return nil, errors.New("No common ancestor with the peer's minor chain ")
+	}
 	return bestAncestor, nil
 }
diff --git a/cluster/sync/root_task.go b/cluster/sync/root_task.go
index 877c7b8..9f5be6e 100644
--- a/cluster/sync/root_task.go
+++ b/cluster/sync/root_task.go
@@ -230,6 +230,9 @@ func (r *rootChainTask) findAncestor(bc blockchain) (*types.RootBlockHeader, err
 			break
 		}
 	}
+	if bestAncestor == nil {
+		return nil, errors.New("No common ancestor with the peer's root chain ")
+	}
 	return bestAncestor, nil
 }
 
-- 
2.43.0


From 0473ceb28ab954203740cf9539ac59da268a6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:56 +0000
Subject: [PATCH 09/43] fix: compare the peer's root tip by total difficulty
 while syncing

---
 cluster/sync/root_task.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/sync/root_task.go b/cluster/sync/root_task.go
index 9f5be6e..d84b4ed 100644
--- a/cluster/sync/root_task.go
+++ b/cluster/sync/root_task.go
@@ -154,7 +154,7 @@ func (r *rootChainTask) downloadBlockHeaderListAndCheck(start uint32, skip,
 	r.stats.HeadersDownloaded += uint64(len(resp.BlockHeaderList))
 
 	// check total difficulty
-	if resp.RootTip.ToTalDifficulty.Cmp(r.header.GetDifficulty()) <= 0 {
+	if resp.RootTip.ToTalDifficulty.Cmp(r.header.GetTotalDifficulty()) < 0 {
 		return nil, errors.New("Bad peer sending root block tip with lower TD ")
 	}
 
-- 
2.43.0


From ad3c8323412a753c94822d549b036547c42396dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:52 +0000
Subject: [PATCH 10/43] fix: GetAllTx answers with its response instead of the
 request

---
 cluster/slave/slave_grpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/slave/slave_grpc.go b/cluster/slave/slave_grpc.go
index aba890f..fa5be83 100755
--- a/cluster/slave/slave_grpc.go
+++ b/cluster/slave/slave_grpc.go
@@ -304,7 +304,7 @@ func (s *SlaveServerSideOp) GetAllTx(ctx context.Context, req *rpc.Request) (*rp
 		return nil, err
 	}
 
-	if response.Data, err = serialize.SerializeToBytes(gReq); err != nil {
+	if response.Data, err = serialize.SerializeToBytes(gRes); err != nil {
 		return nil, err
 	}
 	return response, nil
-- 
2.43.0


From 7ea166eeb7e81a4ff3c97d48d0cc7e3f64a76537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 11/43] fix: name an unknown p2p op by its number instead of
 panicking

---
 p2p/p2p_commands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/p2p_commands.go b/p2p/p2p_commands.go
index 786742a..66309c5 100644
--- a/p2p/p2p_commands.go
+++ b/p2p/p2p_commands.go
@@ -68,7 +68,7 @@ var OPSerializerMap = map[P2PCommandOp]interface{}{
 
 func (p P2PCommandOp) String() string {
 	if _, ok := OPSerializerMap[p]; !ok {
-		strconv.Itoa(int(p))
+		return strconv.Itoa(int(p))
 	}
 	return reflect.TypeOf(OPSerializerMap[p]).Name()
 }
-- 
2.43.0


From da308b23e9f015ac64422dbf341b2592e312299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 12/43] fix: reject a NewRootBlockMsg from a peer instead of
 panicking

---
 cluster/master/handle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 5b92e4a..543d799 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -358,7 +358,7 @@ func (pm *ProtocolManager) handleMsg(peer *Peer) error {
 		}
 
 	case qkcMsg.Op == p2p.NewRootBlockMsg:
-		panic("not implemented")
+		return errors.New("NewRootBlockMsg is not implemented")
 
 	case qkcMsg.Op == p2p.GetMinorBlockHeaderListWithSkipRequestMsg:
 		go func() {
-- 
2.43.0


From 704763fab914b17eae16f92e6fea740ba08fadc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 13/43] fix: fail the request when a peer answers with the
 wrong message type

---
 cluster/master/peer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cluster/master/peer.go b/cluster/master/peer.go
index f6fa80a..33149e6 100644
--- a/cluster/master/peer.go
+++ b/cluster/master/peer.go
@@ -306,7 +306,7 @@ func (p *Peer) GetRootBlockHeaderList(req *p2p.GetRootBlockHeaderListWithSkipReq
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.(*p2p.GetRootBlockHeaderListResponse); !ok {
-			panic("invalid return result in GetRootBlockHeaderList")
+			return nil, errors.New("invalid return result in GetRootBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -343,7 +343,7 @@ func (p *Peer) GetMinorBlockHeaderListWithSkip(req *rpc.P2PRedirectRequest) (res
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errors.New("invalid return result in GetMinorBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -365,7 +365,7 @@ func (p *Peer) GetMinorBlockHeaderList(req *rpc.P2PRedirectRequest) (res []byte,
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockHeaderList")
+			return nil, errors.New("invalid return result in GetMinorBlockHeaderList")
 		} else {
 			return ret, nil
 		}
@@ -398,7 +398,7 @@ func (p *Peer) GetRootBlockList(hashes []common.Hash) ([]*types.RootBlock, error
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]*types.RootBlock); !ok {
-			panic("invalid return result in GetRootBlockList")
+			return nil, errors.New("invalid return result in GetRootBlockList")
 		} else {
 			return ret, nil
 		}
@@ -433,7 +433,7 @@ func (p *Peer) GetMinorBlockList(req *rpc.P2PRedirectRequest) ([]byte, error) {
 	select {
 	case obj := <-rpcchan:
 		if ret, ok := obj.([]byte); !ok {
-			panic("invalid return result in GetMinorBlockList")
+			return nil, errors.New("invalid return result in GetMinorBlockList")
 		} else {
 			return ret, nil
 		}
-- 
2.43.0


From 040ca89c844d01decedbef2fe70d027e7c5986c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:08 +0000
Subject: [PATCH 14/43] fix: a lower block is not a descendant, do not stop the
 node over it

---
 core/common.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/common.go b/core/common.go
index 00cf3c4..66731cd 100644
--- a/core/common.go
+++ b/core/common.go
@@ -1,8 +1,6 @@
 package core
 
 import (
-	"runtime/debug"
-
 	"github.com/QuarkChain/goquarkchain/core/types"
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/log"
@@ -14,8 +12,7 @@ var (
 
 func isSameChain(getParentHash func(common.Hash) common.Hash, longerChainHeader, shorterChainHeader types.IBlock) bool {
 	if longerChainHeader.NumberU64() < shorterChainHeader.NumberU64() {
-		debug.PrintStack()
-		log.Crit("wrong parameter order", "long.Number", longerChainHeader.NumberU64(), "long.Hash", longerChainHeader.Hash().String(), "short.Number", shorterChainHeader.NumberU64(), "short.hash", shorterChainHeader.Hash().String())
+		return false
 	}
 	if shorterChainHeader.NumberU64() == longerChainHeader.NumberU64() {
 		return shorterChainHeader.Hash() == longerChainHeader.Hash()
-- 
2.43.0


From 7c5c9e20001aca4f2032fcc359bd3d05dc48cd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:35 +0000
Subject: [PATCH 15/43] fix: refuse a block with a deposit for a shard not
 initialized yet instead of panicking

---
 cluster/slave/conn_manager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cluster/slave/conn_manager.go b/cluster/slave/conn_manager.go
index 5230295..139c6fe 100755
--- a/cluster/slave/conn_manager.go
+++ b/cluster/slave/conn_manager.go
@@ -191,8 +191,7 @@ func (s *ConnManager) getBranchToAddXshardTxListRequest(blockHash common.Hash,
 			return nil, err
 		}
 		if _, ok := xshardMap[fullShardID]; ok == false {
-			// TODO need delete panic later?
-			panic(errors.New("xshard's to's fullShardID should in map"))
+			return nil, errors.New("xshard's to's fullShardID should in map")
 		}
 		xshardMap[fullShardID] = append(xshardMap[fullShardID], sTx)
 	}
-- 
2.43.0


From 832a00960e1c1f71e20758b42da2ad3527eda24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:06 +0000
Subject: [PATCH 16/43] fix: refuse to serialize a big.Int whose length does
 not fit its one-byte prefix

---
 serialize/serializer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serialize/serializer.go b/serialize/serializer.go
index 76299c7..9e0abaa 100644
--- a/serialize/serializer.go
+++ b/serialize/serializer.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"math/big"
 	"reflect"
 )
@@ -112,6 +113,10 @@ func serializeBigInt(i *big.Int, w *[]byte) error {
 		bytes = i.Bytes()
 	}
 
+	if len(bytes) > math.MaxUint8 {
+		return fmt.Errorf("ser: cannot serialize *big.Int of %d bytes", len(bytes))
+	}
+
 	*w = append(*w, uint8(len(bytes)))
 	*w = append(*w, bytes...)
 	return nil
-- 
2.43.0


From 2e5c549d588a8d66bff74424b8f42637c55d1068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:06 +0000
Subject: [PATCH 17/43] fix: reject signatures with a negative V, which made
 transaction hashes malleable

---
 core/types/transaction_signing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/types/transaction_signing.go b/core/types/transaction_signing.go
index db7266d..870ce12 100644
--- a/core/types/transaction_signing.go
+++ b/core/types/transaction_signing.go
@@ -140,7 +140,7 @@ func (s EIP155Signer) Hash(tx *EvmTransaction) common.Hash {
 }
 
 func recoverPlain(sighash common.Hash, R, S, Vb *big.Int, homestead bool) (account.Recipient, error) {
-	if Vb.BitLen() > 8 {
+	if Vb.Sign() < 0 || Vb.BitLen() > 8 {
 		return account.Recipient{}, ErrInvalidSig
 	}
 	// QuarkChain use NetworkId to store the chain Id instead of added to V,
-- 
2.43.0


From 49105c6e159449c042171f0582aad02501db4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:06 +0000
Subject: [PATCH 18/43] fix: refresh the cached hash of a root block when it is
 signed

---
 core/types/rootblock.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/types/rootblock.go b/core/types/rootblock.go
index 4f712ba..9642584 100644
--- a/core/types/rootblock.go
+++ b/core/types/rootblock.go
@@ -330,6 +330,7 @@ func (b *RootBlock) SignWithPrivateKey(prv *ecdsa.PrivateKey) error {
 	}
 
 	copy(b.header.Signature[:], sig)
+	b.hash.Store(b.header.Hash())
 	return nil
 }
 
-- 
2.43.0


From 85653ab41d50b01e73661d960c098b5bb7f32905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:06 +0000
Subject: [PATCH 19/43] fix: recompute the hash of a transaction after
 SetFromFullShardKey

---
 core/types/transaction.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/types/transaction.go b/core/types/transaction.go
index 14813c7..14f5285 100644
--- a/core/types/transaction.go
+++ b/core/types/transaction.go
@@ -75,6 +75,7 @@ func (e *EvmTransaction) SetGas(data uint64) {
 func (e *EvmTransaction) SetFromFullShardKey(data uint32) {
 	t := Uint32(data)
 	e.data.FromFullShardKey = &t
+	e.updated = true
 }
 
 func (e *EvmTransaction) SetNonce(data uint64) {
-- 
2.43.0


From 049f373b5fd8f9341c42145c097807e30f23b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 20/43] fix: report a receipt's own gas in JSON-RPC receipts

GasUsed already is the gas of the one transaction; subtracting the
cumulative gas of its predecessors again made the reported value wrong
(and wrap around) for every receipt but the first of a block.
---
 internal/encoder/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/encoder.go b/internal/encoder/encoder.go
index 90d1a6a..0602f39 100644
--- a/internal/encoder/encoder.go
+++ b/internal/encoder/encoder.go
@@ -439,7 +439,7 @@ func ReceiptEncoder(block *types.MinorBlock, i int, receipt *types.Receipt) (map
 		"blockHeight":       hexutil.Uint64(header.Number),
 		"blockNumber":       hexutil.Uint64(header.Number),
 		"cumulativeGasUsed": hexutil.Uint64(receipt.CumulativeGasUsed),
-		"gasUsed":           hexutil.Uint64(receipt.GasUsed - receipt.GetPrevGasUsed()),
+		"gasUsed":           hexutil.Uint64(receipt.GasUsed),
 		"status":            hexutil.Uint64(receipt.Status),
 		"logs":              LogListEncoder(receipt.Logs, false),
 		"timestamp":         hexutil.Uint64(block.Time()),
-- 
2.43.0


From 6da94994036c1e8e27ff77a7e46d41be026b52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 21/43] fix: show the address of a created contract in JSON-RPC
 receipts

Both encoders tested the wrong way round: receipts with a contract address
showed null and receipts without one showed the zero address. The caller
also used the receipt after the encoder had refused it.
---
 internal/encoder/encoder.go | 2 +-
 internal/qkcapi/api.go      | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/encoder.go b/internal/encoder/encoder.go
index 0602f39..61347fb 100644
--- a/internal/encoder/encoder.go
+++ b/internal/encoder/encoder.go
@@ -444,7 +444,7 @@ func ReceiptEncoder(block *types.MinorBlock, i int, receipt *types.Receipt) (map
 		"logs":              LogListEncoder(receipt.Logs, false),
 		"timestamp":         hexutil.Uint64(block.Time()),
 	}
-	if receipt.ContractAddress != (ethCommon.Address{}) {
+	if receipt.ContractAddress == (ethCommon.Address{}) {
 		field["contractAddress"] = nil
 	} else {
 		addr := account.Address{
diff --git a/internal/qkcapi/api.go b/internal/qkcapi/api.go
index cc8bc5a..fd2d60c 100755
--- a/internal/qkcapi/api.go
+++ b/internal/qkcapi/api.go
@@ -82,7 +82,10 @@ func (c *CommonAPI) GetTransactionReceipt(txID hexutil.Bytes) (map[string]interf
 		return nil, nil
 	}
 	ret, err := encoder.ReceiptEncoder(minorBlock, int(index), receipt)
-	if receipt.ContractAddress != (common.Address{}) {
+	if err != nil {
+		return nil, err
+	}
+	if receipt.ContractAddress == (common.Address{}) {
 		ret["contractAddress"] = nil
 	} else {
 		ret["contractAddress"] = account.Address{
-- 
2.43.0


From 9aacfec01b51ce33da6086b2fbc9a224163f9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:38 +0000
Subject: [PATCH 22/43] fix: count only a cross-shard transaction's own gas in
 its receipt

AddCrossShardTxDeposit returned the gas used by the whole block so far as
the gas used by the transaction, so its receipt (and the running total)
were wrong whenever another transaction or deposit came before it.
---
 core/state_transition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/state_transition.go b/core/state_transition.go
index d8a7aa2..ed3a656 100644
--- a/core/state_transition.go
+++ b/core/state_transition.go
@@ -322,6 +322,7 @@ func (st *StateTransition) AddCrossShardTxDeposit(intrinsicGas uint64) (ret []by
 	msg := st.msg
 	state := evm.StateDB
 	gensisToken := state.GetQuarkChainConfig().GetDefaultChainTokenID()
+	gasUsedBefore := state.GetGasUsed().Uint64()
 	if !evm.CanTransfer(state, msg.From(), st.value, st.msg.TransferTokenID()) {
 		return nil, st.gas, false, vm.ErrInsufficientBalance
 	}
@@ -415,7 +416,7 @@ func (st *StateTransition) AddCrossShardTxDeposit(intrinsicGas uint64) (ret []by
 		localGasUsed -= qkcParam.GtxxShardCost.Uint64()
 	}
 	st.chargeFee(localGasUsed)
-	return nil, state.GetGasUsed().Uint64(), failed, nil
+	return nil, state.GetGasUsed().Uint64() - gasUsedBefore, failed, nil
 }
 
 func (st *StateTransition) chargeFee(gasUsed uint64) {
-- 
2.43.0


From 38bb7be95d91ed58f5b4fc159f0891d9c9730119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:38 +0000
Subject: [PATCH 23/43] fix: do not read the receipt of a failed gas estimation
 run

ApplyTransaction returns no receipt with an error; EstimateGas dereferenced
it and took the slave down.
---
 core/minorblockchain_addon.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 267b1c9..f2df5bd 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1281,11 +1281,13 @@ func (m *MinorBlockChain) EstimateGas(tx *types.Transaction, fromAddress *accoun
 		gasUsed := new(uint64)
 		receipt := new(types.Receipt)
 		_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, evmState, m.CurrentHeader(), evmTx, gasUsed, m.vmConfig)
-
+		if err != nil {
+			return err
+		}
 		if receipt.Status == types.ReceiptStatusFailed {
 			return errors.New("failed")
 		}
-		return err
+		return nil
 	}
 
 	for lo+1 < hi {
-- 
2.43.0


From 8c00fdfbb416ba12a8134a20ba44dca764f2148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 24/43] fix: report a failed genesis block instead of
 dereferencing it

SetupGenesisRootBlock and SetupGenesisMinorBlock took the hash of the block
before looking at the error, and panicked when the genesis configuration of
the shard is missing or the database fails.
---
 core/genesis.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/genesis.go b/core/genesis.go
index 355c6de..305dacc 100644
--- a/core/genesis.go
+++ b/core/genesis.go
@@ -63,7 +63,10 @@ func (g *Genesis) CreateMinorBlock(rootBlock *types.RootBlock, fullShardId uint3
 		return nil, fmt.Errorf("genesis config for shard %d is missing", fullShardId)
 	}
 
-	statedb, _ := state.New(common.Hash{}, state.NewDatabase(db))
+	statedb, err := state.New(common.Hash{}, state.NewDatabase(db))
+	if err != nil {
+		return nil, err
+	}
 	branch := account.Branch{Value: fullShardId}
 
 	for addr, allocation := range genesis.Alloc {
@@ -168,7 +171,10 @@ func SetupGenesisRootBlock(db ethdb.Database, genesis *Genesis) (*config.QuarkCh
 	stored := rawdb.ReadCanonicalHash(db, rawdb.ChainTypeRoot, 0)
 	if (stored == common.Hash{}) {
 		block, err := genesis.CommitRootBlock(db)
-		return genesis.qkcConfig, block.Hash(), err
+		if err != nil {
+			return genesis.qkcConfig, common.Hash{}, err
+		}
+		return genesis.qkcConfig, block.Hash(), nil
 	}
 
 	// Check whether the genesis block is already written.
@@ -206,11 +212,17 @@ func SetupGenesisMinorBlock(db ethdb.Database, genesis *Genesis, rootBlock *type
 	stored := rawdb.ReadCanonicalHash(db, rawdb.ChainTypeMinor, 0)
 	if (stored == common.Hash{}) {
 		block, err := genesis.CommitMinorBlock(db, rootBlock, fullShardId)
-		return genesis.qkcConfig, block.Hash(), err
+		if err != nil {
+			return genesis.qkcConfig, common.Hash{}, err
+		}
+		return genesis.qkcConfig, block.Hash(), nil
 	}
 
 	// Check whether the genesis block is already written.
-	block, _ := genesis.CreateMinorBlock(rootBlock, fullShardId, db)
+	block, err := genesis.CreateMinorBlock(rootBlock, fullShardId, db)
+	if err != nil {
+		return genesis.qkcConfig, common.Hash{}, err
+	}
 	hash := block.Hash()
 	if hash != stored {
 		return genesis.qkcConfig, hash, &GenesisMismatchError{stored, hash}
-- 
2.43.0


From 658ba314d4dd1070e14e3aa3279f9ae4ffb48e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 25/43] fix: refuse a peer when the node key cannot be read

handle ignored the error of GetPrivateKeyFromConfig and dereferenced the
missing key.
---
 cluster/master/handle.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cluster/master/handle.go b/cluster/master/handle.go
index 543d799..b56b527 100644
--- a/cluster/master/handle.go
+++ b/cluster/master/handle.go
@@ -157,7 +157,10 @@ func (pm *ProtocolManager) handle(peer *Peer) error {
 
 	peer.Log().Info("peer connected", "name", peer.Name())
 
-	privateKey, _ := p2p.GetPrivateKeyFromConfig(pm.clusterConfig.P2P.PrivKey)
+	privateKey, err := p2p.GetPrivateKeyFromConfig(pm.clusterConfig.P2P.PrivKey)
+	if err != nil {
+		return err
+	}
 	id := crypto.FromECDSAPub(&privateKey.PublicKey)
 	if err := peer.Handshake(pm.clusterConfig.Quarkchain.P2PProtocolVersion,
 		pm.networkID,
@@ -177,7 +180,7 @@ func (pm *ProtocolManager) handle(peer *Peer) error {
 	defer pm.removePeer(peer.id)
 	log.Info(pm.log, "peer add succ id ", peer.PeerID())
 
-	err := pm.synchronizer.AddTask(qkcsync.NewRootChainTask(peer, peer.RootHead(), pm.stats, pm.statsChan, pm.slaveConns))
+	err = pm.synchronizer.AddTask(qkcsync.NewRootChainTask(peer, peer.RootHead(), pm.stats, pm.statsChan, pm.slaveConns))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8d35d5d7b2b2314ddffda1bb302b8360efccc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 26/43] fix: report a missing head header in eth_blockNumber

The error was dropped and the missing header dereferenced.
---
 cluster/slave/api.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cluster/slave/api.go b/cluster/slave/api.go
index 8f777bd..9a462b2 100644
--- a/cluster/slave/api.go
+++ b/cluster/slave/api.go
@@ -339,9 +339,12 @@ func (api *PublicFilterAPI) GetBlockByHash(ctx context.Context, hash common.Hash
 	return encoder.MinorBlockEncoderForEthClient(block, true, fullTx)
 }
 
-func (api *PublicFilterAPI) BlockNumber(ctx context.Context) hexutil.Uint64 {
-	header, _ := api.getShardFilter().GetHeaderByNumber(rpc.LatestBlockNumber) // latest header should always be available
-	return hexutil.Uint64(header.NumberU64())
+func (api *PublicFilterAPI) BlockNumber(ctx context.Context) (hexutil.Uint64, error) {
+	header, err := api.getShardFilter().GetHeaderByNumber(rpc.LatestBlockNumber)
+	if err != nil {
+		return 0, err
+	}
+	return hexutil.Uint64(header.NumberU64()), nil
 }
 
 // GetTransactionByHash returns the transaction for the given hash
-- 
2.43.0


From 26634a4c26edef013f839f8eff3e4fdae49ea093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 27/43] fix: report a malformed key file instead of panicking

Load ignored the JSON error, and DecodeKeyStoreJSON panicked on missing KDF
parameters, a negative key length or an IV that is not one block long.
---
 account/account.go | 28 ++++++++++++++++++++++------
 account/common.go  | 13 ++++++++-----
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/account/account.go b/account/account.go
index 741fb82..20aa56a 100644
--- a/account/account.go
+++ b/account/account.go
@@ -2,6 +2,7 @@ package account
 
 import (
 	"bytes"
+	"crypto/aes"
 	"crypto/rand"
 	"crypto/sha256"
 	"encoding/hex"
@@ -93,7 +94,9 @@ func Load(path string, password string) (Account, error) {
 	}
 
 	var keystoreJSONData EncryptedKeyJSON
-	err = json.Unmarshal(jsonData, &keystoreJSONData)
+	if err = json.Unmarshal(jsonData, &keystoreJSONData); err != nil {
+		return Account{}, err
+	}
 	key, err := DecodeKeyStoreJSON(keystoreJSONData, password)
 	if err != nil {
 		return Account{}, err
@@ -116,22 +119,35 @@ func Load(path string, password string) (Account, error) {
 // DecodeKeyStoreJSON decode key with password ,return plainText to create account
 func DecodeKeyStoreJSON(keystoreJSONData EncryptedKeyJSON, password string) ([]byte, error) {
 	kdfParams := keystoreJSONData.Crypto.KDFParams
-	c := ensureInt(kdfParams[kdfParamsC])
-	salt, err := hex.DecodeString(kdfParams[kdfParamsSalt].(string))
+	c, err := ensureInt(kdfParams[kdfParamsC])
+	if err != nil {
+		return []byte{}, err
+	}
+	saltHex, ok := kdfParams[kdfParamsSalt].(string)
+	if !ok {
+		return []byte{}, errors.New("salt is missing")
+	}
+	salt, err := hex.DecodeString(saltHex)
 	if err != nil {
 		return []byte{}, err
 	}
 
-	dkLen := ensureInt(kdfParams[kdfParamsPrfDkLen])
-	derivedKey := pbkdf2.Key([]byte(password), salt, c, dkLen, sha256.New)
-	if len(derivedKey) < 32 { // derived key must be at least 32 bytes long
+	dkLen, err := ensureInt(kdfParams[kdfParamsPrfDkLen])
+	if err != nil {
+		return []byte{}, err
+	}
+	if dkLen < 32 { // derived key must be at least 32 bytes long
 		return []byte{}, errors.New("derivedkey<32")
 	}
+	derivedKey := pbkdf2.Key([]byte(password), salt, c, dkLen, sha256.New)
 
 	iv, err := hex.DecodeString(keystoreJSONData.Crypto.CipherParams.IV)
 	if err != nil {
 		return []byte{}, err
 	}
+	if len(iv) != aes.BlockSize {
+		return []byte{}, errors.New("iv has a wrong length")
+	}
 
 	cipherText, err := hex.DecodeString(keystoreJSONData.Crypto.CipherText)
 	if err != nil {
diff --git a/account/common.go b/account/common.go
index 5845c29..f505608 100755
--- a/account/common.go
+++ b/account/common.go
@@ -5,6 +5,7 @@ import (
 	"crypto/cipher"
 	"crypto/ecdsa"
 	"encoding/binary"
+	"fmt"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -46,12 +47,14 @@ func writeKeyFile(file string, content []byte) error {
 	return os.Rename(name, file)
 }
 
-func ensureInt(x interface{}) int {
-	res, ok := x.(int)
-	if !ok {
-		res = int(x.(float64))
+func ensureInt(x interface{}) (int, error) {
+	switch v := x.(type) {
+	case int:
+		return v, nil
+	case float64:
+		return int(v), nil
 	}
-	return res
+	return 0, fmt.Errorf("%v is not a number", x)
 }
 
 func aesCTRXOR(key, inText, iv []byte) ([]byte, error) {
-- 
2.43.0


From 93462731522736d0ea4b5327d64fd20e02f05178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:25 +0000
Subject: [PATCH 28/43] fix: lock the hash map shared by concurrent ws API
 calls

---
 cluster/slave/api.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cluster/slave/api.go b/cluster/slave/api.go
index 9a462b2..77f1502 100644
--- a/cluster/slave/api.go
+++ b/cluster/slave/api.go
@@ -59,6 +59,7 @@ type PublicFilterAPI struct {
 	filtersMu   sync.Mutex
 	shardId     uint32 // as default shardId
 	shardFilter filters.ShardFilter
+	hashMu      sync.RWMutex
 	hashMap     map[common.Hash]common.Hash
 }
 
@@ -277,7 +278,9 @@ func (api *PublicFilterAPI) SendRawTransaction(ctx context.Context, encodedTx he
 	if err != nil {
 		return common.Hash{}, err
 	}
+	api.hashMu.Lock()
 	api.hashMap[ethtx.Hash()] = tx.Hash()
+	api.hashMu.Unlock()
 
 	return tx.Hash(), nil
 }
@@ -349,7 +352,9 @@ func (api *PublicFilterAPI) BlockNumber(ctx context.Context) (hexutil.Uint64, er
 
 // GetTransactionByHash returns the transaction for the given hash
 func (api *PublicFilterAPI) GetTransactionByHash(ctx context.Context, ethhash common.Hash) (*encoder.RPCTransaction, error) {
+	api.hashMu.RLock()
 	hash, ok := api.hashMap[ethhash]
+	api.hashMu.RUnlock()
 	if !ok {
 		hash = ethhash
 	}
@@ -371,7 +376,9 @@ func (api *PublicFilterAPI) GetTransactionByHash(ctx context.Context, ethhash co
 
 // GetTransactionReceipt returns the transaction receipt for the given transaction hash.
 func (api *PublicFilterAPI) GetTransactionReceipt(ctx context.Context, ethhash common.Hash) (map[string]interface{}, error) {
+	api.hashMu.RLock()
 	hash, ok := api.hashMap[ethhash]
+	api.hashMu.RUnlock()
 	if !ok {
 		hash = ethhash
 	}
-- 
2.43.0


From 72f8feacd15d39e3ff0482f0b1e4411fd926c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:26 +0000
Subject: [PATCH 29/43] fix: read the slave connection table under its lock

---
 cluster/slave/conn_manager.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/cluster/slave/conn_manager.go b/cluster/slave/conn_manager.go
index 139c6fe..f792610 100755
--- a/cluster/slave/conn_manager.go
+++ b/cluster/slave/conn_manager.go
@@ -71,6 +71,8 @@ func (s *ConnManager) SetConnectToMasterAndSlaves(cfgs []*config.SlaveConfig) {
 }
 
 func (s *ConnManager) GetConnectionsByFullShardId(id uint32) []*SlaveConn {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if conns, ok := s.fullShardIdToSlaves[id]; ok {
 		return conns
 	}
@@ -79,26 +81,22 @@ func (s *ConnManager) GetConnectionsByFullShardId(id uint32) []*SlaveConn {
 
 func (s *ConnManager) AddXshardTxList(fullShardId uint32, xshardReq *rpc.AddXshardTxListRequest) error {
 	var g errgroup.Group
-	if clients, ok := s.fullShardIdToSlaves[fullShardId]; ok {
-		for _, client := range clients {
-			cli := client
-			g.Go(func() error {
-				return cli.AddXshardTxList(xshardReq)
-			})
-		}
+	for _, client := range s.GetConnectionsByFullShardId(fullShardId) {
+		cli := client
+		g.Go(func() error {
+			return cli.AddXshardTxList(xshardReq)
+		})
 	}
 	return g.Wait()
 }
 
 func (s *ConnManager) BatchAddXshardTxList(fullShardId uint32, xshardReqs []*rpc.AddXshardTxListRequest) error {
 	var g errgroup.Group
-	if clients, ok := s.fullShardIdToSlaves[fullShardId]; ok {
-		for _, client := range clients {
-			cli := client
-			g.Go(func() error {
-				return cli.BatchAddXshardTxList(xshardReqs)
-			})
-		}
+	for _, client := range s.GetConnectionsByFullShardId(fullShardId) {
+		cli := client
+		g.Go(func() error {
+			return cli.BatchAddXshardTxList(xshardReqs)
+		})
 	}
 	return g.Wait()
 }
-- 
2.43.0


From a808284f7e2dd747ff1dfece179e4b83bdaf533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:26 +0000
Subject: [PATCH 30/43] fix: read the current mining works under their lock

---
 consensus/remote.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/consensus/remote.go b/consensus/remote.go
index 6e484e3..b54ae43 100644
--- a/consensus/remote.go
+++ b/consensus/remote.go
@@ -188,6 +188,9 @@ func (c *currentWorks) len() int {
 }
 
 func (c *currentWorks) getWorkByAddr(addr account.Address) (*MiningWork, error) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
 	work := c.works[addr]
 	if work == nil {
 		return nil, ErrNoMiningWork
-- 
2.43.0


From a05e9d3ce3ffda1455155244a51431b830037a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:30 +0000
Subject: [PATCH 31/43] fix: lock the cached coinbase amounts

---
 core/minorblockchain.go       | 1 +
 core/minorblockchain_addon.go | 4 ++++
 core/rootblockchain.go        | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index 439ab7a..baeee40 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -121,6 +121,7 @@ type MinorBlockChain struct {
 	rootBlockCache        *lru.Cache
 	lastConfirmCache      *lru.Cache
 	coinbaseAmountCache   map[uint64]CoinbaseAmountAboutHeight
+	coinbaseAmountMu      sync.Mutex // protects coinbaseAmountCache
 
 	quit    chan struct{} // blockchain quit channel
 	running int32         // running must be called atomically
diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index f2df5bd..09657c2 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -72,6 +72,8 @@ func powerBigInt(data *big.Int, p uint64) *big.Int {
 
 func (m *MinorBlockChain) getCoinbaseAmount(height uint64) *types.TokenBalances {
 	epoch := height / m.shardConfig.EpochInterval
+	m.coinbaseAmountMu.Lock()
+	defer m.coinbaseAmountMu.Unlock()
 	cache, ok := m.coinbaseAmountCache[epoch]
 	if ok {
 		return cache.CoinbaseAmount.Copy()
@@ -86,6 +88,8 @@ func (m *MinorBlockChain) DecayByHeightAndTime(height uint64, time uint64) big.I
 		return *m.shardConfig.PoswConfig.TotalStakePerBlock
 	}
 	epoch := height / m.shardConfig.EpochInterval
+	m.coinbaseAmountMu.Lock()
+	defer m.coinbaseAmountMu.Unlock()
 	cache, ok := m.coinbaseAmountCache[epoch]
 	if ok {
 		return cache.StakePreBlock
diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index 9d2cdf1..e209ed1 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -1266,7 +1266,9 @@ func (bc *RootBlockChain) CalculateRootBlockCoinBase(rootBlock *types.RootBlock)
 
 func (bc *RootBlockChain) getCoinbaseAmount(height uint64) *big.Int {
 	epoch := height / bc.Config().Root.EpochInterval
+	bc.mu.RLock()
 	coinbaseAmount, ok := bc.coinbaseAmountCache[epoch]
+	bc.mu.RUnlock()
 	if !ok {
 		numerator := powerBigInt(bc.Config().BlockRewardDecayFactor.Num(), epoch)
 		denominator := powerBigInt(new(big.Rat).Set(bc.Config().BlockRewardDecayFactor).Denom(), epoch)
-- 
2.43.0


From df1c207d9956e3da7410ef2f74e45147f5316541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:08 +0000
Subject: [PATCH 32/43] fix: do not lock the miner's mutex twice

---
 cluster/miner/miner.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cluster/miner/miner.go b/cluster/miner/miner.go
index 2d556a5..1383efa 100644
--- a/cluster/miner/miner.go
+++ b/cluster/miner/miner.go
@@ -78,6 +78,12 @@ func (m *Miner) interrupt() {
 	}
 }
 
+func (m *Miner) getStopCh() chan struct{} {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	return m.stopCh
+}
+
 func (m *Miner) allowMining() bool {
 	if !m.IsMining() ||
 		time.Now().Sub(m.ctx.GetTimestamp()).Seconds() > deadtime {
@@ -135,13 +141,11 @@ func (m *Miner) sealLoop() {
 		select {
 		case work := <-m.workCh: // to discuss:need this?
 			log.Debug(m.logInfo, "ready to seal height", work.block.NumberU64(), "coinbase", work.block.Coinbase().ToHex())
-			m.mu.Lock()
-			if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider, m.resultCh, m.stopCh); err != nil {
+			if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider, m.resultCh, m.getStopCh()); err != nil {
 				log.Error(m.logInfo, "Seal block to mine err", err)
 				coinbase := work.block.Coinbase()
 				m.commit(&coinbase)
 			}
-			m.mu.Unlock()
 
 		case <-m.exitCh:
 			log.Error("sealLoop exit")
@@ -180,8 +184,8 @@ func (m *Miner) Stop() {
 // TODO when p2p is syncing block how to stop miner.
 func (m *Miner) SetMining(mining bool) {
 	m.mu.Lock()
-	defer m.mu.Unlock()
 	m.isMining = mining
+	m.mu.Unlock()
 	if mining {
 		m.startCh <- struct{}{}
 	} else {
@@ -203,7 +207,7 @@ func (m *Miner) GetWork(coinbaseAddr *account.Address) (*consensus.MiningWork, e
 				work := workAdjusted{block, diff, optionalDivider}
 				go func() {
 					if err := m.engine.Seal(nil, work.block, work.adjustedDifficulty, work.optionalDivider,
-						m.resultCh, m.stopCh); err != nil {
+						m.resultCh, m.getStopCh()); err != nil {
 						log.Error(m.logInfo, "Seal block to mine err", err)
 						coinbase := work.block.Coinbase()
 						m.commit(&coinbase)
-- 
2.43.0


From 4db3e92960982b5fb3dcbc37faf669016cf51bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:08 +0000
Subject: [PATCH 33/43] fix: check a managed account under its lock

---
 core/state/managed_state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/state/managed_state.go b/core/state/managed_state.go
index 1390ef4..654b3d7 100644
--- a/core/state/managed_state.go
+++ b/core/state/managed_state.go
@@ -53,10 +53,10 @@ func (ms *ManagedState) SetState(statedb *StateDB) {
 
 // RemoveNonce removed the nonce from the managed state and all future pending nonces
 func (ms *ManagedState) RemoveNonce(addr common.Address, n uint64) {
-	if ms.hasAccount(addr) {
-		ms.mu.Lock()
-		defer ms.mu.Unlock()
+	ms.mu.Lock()
+	defer ms.mu.Unlock()
 
+	if ms.hasAccount(addr) {
 		account := ms.getAccount(addr)
 		if n-account.nstart <= uint64(len(account.nonces)) {
 			reslice := make([]bool, n-account.nstart)
-- 
2.43.0


From b15d8b42be1b0aca77804579395fb18388b24413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:08 +0000
Subject: [PATCH 34/43] fix: read the routing table snapshot under its lock

---
 p2p/discover/table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/discover/table.go b/p2p/discover/table.go
index 76a97b3..faef404 100644
--- a/p2p/discover/table.go
+++ b/p2p/discover/table.go
@@ -146,6 +146,8 @@ func (tab *Table) seedRand() {
 }
 
 func (tab *Table) GetKadRoutingTable() []string {
+	tab.mutex.Lock()
+	defer tab.mutex.Unlock()
 	return tab.nodeUrls
 }
 
-- 
2.43.0


From 5e7435175622d7b9dece377184e3c6b99e1d69af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 35/43] fix: guard the slave's shard table with its lock

---
 cluster/slave/api_backend.go  | 69 +++++++++++++++++------------------
 cluster/slave/backend.go      | 35 ++++++++++++++++--
 cluster/slave/conn_manager.go |  4 +-
 cluster/slave/slave_grpc.go   |  2 +-
 4 files changed, 68 insertions(+), 42 deletions(-)

diff --git a/cluster/slave/api_backend.go b/cluster/slave/api_backend.go
index 6836787..2baacac 100755
--- a/cluster/slave/api_backend.go
+++ b/cluster/slave/api_backend.go
@@ -25,7 +25,7 @@ func (s *SlaveBackend) GetUnconfirmedHeaderList() ([]*rpc.HeadersInfo, error) {
 	var (
 		headersInfoLst = make([]*rpc.HeadersInfo, 0)
 	)
-	for branch, shard := range s.shards {
+	for branch, shard := range s.copyShards() {
 		if headers, err := shard.GetUnconfirmedHeaderList(); err == nil {
 			headersInfoLst = append(headersInfoLst, &rpc.HeadersInfo{
 				Branch:     branch,
@@ -40,7 +40,7 @@ func (s *SlaveBackend) GetUnconfirmedHeaderList() ([]*rpc.HeadersInfo, error) {
 
 func (s *SlaveBackend) AddRootBlock(block *types.RootBlock) (switched bool, err error) {
 	switched = false
-	for _, shard := range s.shards {
+	for _, shard := range s.copyShards() {
 		if switched, err = shard.AddRootBlock(block); err != nil {
 			return false, err
 		}
@@ -55,7 +55,7 @@ func (s *SlaveBackend) CreateShards(rootBlock *types.RootBlock, forceInit bool)
 	var g errgroup.Group
 	for _, id := range fullShardList {
 		id := id
-		if shd, ok := s.shards[id]; ok {
+		if shd, ok := s.getShard(id); ok {
 			if forceInit {
 				if err := shd.InitFromRootBlock(rootBlock); err != nil {
 					return err
@@ -81,17 +81,16 @@ func (s *SlaveBackend) CreateShards(rootBlock *types.RootBlock, forceInit bool)
 		})
 	}
 	if err := g.Wait(); err != nil {
-		for _, slv := range s.shards {
+		for _, slv := range s.removeShards() {
 			slv.Stop()
 		}
-		s.shards = make(map[uint32]*shard.ShardBackend)
 		return err
 	}
 	return nil
 }
 
 func (s *SlaveBackend) AddBlockListForSync(mHashList []common.Hash, peerId string, branch uint32) (*rpc.ShardStatus, error) {
-	shard, ok := s.shards[branch]
+	shard, ok := s.getShard(branch)
 	if !ok {
 		return nil, ErrMsg("AddBlockListForSync")
 	}
@@ -146,7 +145,7 @@ func (s *SlaveBackend) AddTx(tx *types.Transaction) (err error) {
 	if err := tx.EvmTx.SetFromShardSize(fromShardSize); err != nil {
 		return err
 	}
-	if shard, ok := s.shards[tx.EvmTx.FromFullShardId()]; ok {
+	if shard, ok := s.getShard(tx.EvmTx.FromFullShardId()); ok {
 		return shard.MinorBlockChain.AddTx(tx)
 	}
 	return ErrMsg("AddTx")
@@ -157,7 +156,7 @@ func (s *SlaveBackend) AddTxList(peerID string, branch uint32, txs []*types.Tran
 		return nil
 	}
 
-	shard, ok := s.shards[branch]
+	shard, ok := s.getShard(branch)
 	if !ok {
 		return fmt.Errorf("fullShardID:%v not found", branch)
 	}
@@ -189,7 +188,7 @@ func (s *SlaveBackend) ExecuteTx(tx *types.Transaction, address *account.Address
 	if err := tx.EvmTx.SetFromShardSize(fromShardSize); err != nil {
 		return nil, err
 	}
-	if shard, ok := s.shards[tx.EvmTx.FromFullShardId()]; ok {
+	if shard, ok := s.getShard(tx.EvmTx.FromFullShardId()); ok {
 		return shard.MinorBlockChain.ExecuteTx(tx, address, height)
 	}
 	return nil, ErrMsg("ExecuteTx")
@@ -201,7 +200,7 @@ func (s *SlaveBackend) GetAccountData(address *account.Address, height *uint64)
 		bt      []byte
 		err     error
 	)
-	for branch, shard := range s.shards {
+	for branch, shard := range s.copyShards() {
 		data := rpc.AccountBranchData{
 			Branch: branch,
 		}
@@ -232,14 +231,14 @@ func (s *SlaveBackend) GetAccountData(address *account.Address, height *uint64)
 }
 
 func (s *SlaveBackend) GetMinorBlock(hash common.Hash, height *uint64, branch uint32) (*types.MinorBlock, error) {
-	if shard, ok := s.shards[branch]; ok {
+	if shard, ok := s.getShard(branch); ok {
 		return shard.GetMinorBlock(hash, height)
 	}
 	return nil, ErrMsg("GetMinorBlock")
 }
 
 func (s *SlaveBackend) GetMinorBlockExtraInfo(block *types.MinorBlock, branch uint32) (*rpc.PoSWInfo, error) {
-	if shard, ok := s.shards[branch]; ok {
+	if shard, ok := s.getShard(branch); ok {
 		extra, err := shard.MinorBlockChain.PoswInfo(block)
 		if err != nil {
 			return nil, err
@@ -250,7 +249,7 @@ func (s *SlaveBackend) GetMinorBlockExtraInfo(block *types.MinorBlock, branch ui
 }
 
 func (s *SlaveBackend) GetTransactionByHash(txHash common.Hash, branch uint32) (*types.MinorBlock, uint32, error) {
-	if shard, ok := s.shards[branch]; ok {
+	if shard, ok := s.getShard(branch); ok {
 		minorBlock, idx := shard.MinorBlockChain.GetTransactionByHash(txHash)
 		return minorBlock, idx, nil
 	}
@@ -258,7 +257,7 @@ func (s *SlaveBackend) GetTransactionByHash(txHash common.Hash, branch uint32) (
 }
 
 func (s *SlaveBackend) GetTransactionReceipt(txHash common.Hash, branch uint32) (*types.MinorBlock, uint32, *types.Receipt, error) {
-	if shard, ok := s.shards[branch]; ok {
+	if shard, ok := s.getShard(branch); ok {
 		block, index, receipt := shard.MinorBlockChain.GetTransactionReceipt(txHash)
 		return block, index, receipt, nil
 	}
@@ -270,21 +269,21 @@ func (s *SlaveBackend) GetTransactionListByAddress(address *account.Address, tra
 	if err != nil {
 		return nil, nil, err
 	}
-	if shard, ok := s.shards[branch.Value]; ok {
+	if shard, ok := s.getShard(branch.Value); ok {
 		return shard.GetTransactionListByAddress(address, transferTokenID, start, limit)
 	}
 	return nil, nil, ErrMsg("GetTransactionListByAddress")
 }
 
 func (s *SlaveBackend) GetAllTx(branch account.Branch, start []byte, limit uint32) ([]*rpc.TransactionDetail, []byte, error) {
-	if shard, ok := s.shards[branch.Value]; ok {
+	if shard, ok := s.getShard(branch.Value); ok {
 		return shard.GetAllTx(start, limit)
 	}
 	return nil, nil, ErrMsg("GetAllTx")
 }
 
 func (s *SlaveBackend) GetLogs(args *qrpc.FilterQuery) ([]*types.Log, error) {
-	if shard, ok := s.shards[args.FullShardId]; ok {
+	if shard, ok := s.getShard(args.FullShardId); ok {
 		return shard.GetLogsByFilterQuery(args)
 	}
 	return nil, ErrMsg("GetLogs")
@@ -295,7 +294,7 @@ func (s *SlaveBackend) EstimateGas(tx *types.Transaction, address *account.Addre
 	if err != nil {
 		return 0, err
 	}
-	if shrd, ok := s.shards[fullShardId]; ok {
+	if shrd, ok := s.getShard(fullShardId); ok {
 		return shrd.MinorBlockChain.EstimateGas(tx, address)
 	}
 	return 0, ErrMsg("EstimateGas")
@@ -306,7 +305,7 @@ func (s *SlaveBackend) GetStorageAt(address *account.Address, key common.Hash, h
 	if err != nil {
 		return common.Hash{}, err
 	}
-	if shard, ok := s.shards[branch.Value]; ok {
+	if shard, ok := s.getShard(branch.Value); ok {
 		hash, err := shard.MinorBlockChain.GetHashByHeight(height)
 		if err != nil {
 			return common.Hash{}, err
@@ -321,7 +320,7 @@ func (s *SlaveBackend) GetCode(address *account.Address, height *uint64) ([]byte
 	if err != nil {
 		return nil, err
 	}
-	if shard, ok := s.shards[branch.Value]; ok {
+	if shard, ok := s.getShard(branch.Value); ok {
 		hash, err := shard.MinorBlockChain.GetHashByHeight(height)
 		if err != nil {
 			return nil, err
@@ -332,7 +331,7 @@ func (s *SlaveBackend) GetCode(address *account.Address, height *uint64) ([]byte
 }
 
 func (s *SlaveBackend) GasPrice(branch uint32, tokenID uint64) (uint64, error) {
-	if shard, ok := s.shards[branch]; ok {
+	if shard, ok := s.getShard(branch); ok {
 		price, err := shard.MinorBlockChain.GasPrice(tokenID)
 		if err != nil {
 			return 0, errors.New(fmt.Sprintf("Failed to get gas price, shard id : %d, err: %v", shard.Config.ShardID, err))
@@ -343,14 +342,14 @@ func (s *SlaveBackend) GasPrice(branch uint32, tokenID uint64) (uint64, error) {
 }
 
 func (s *SlaveBackend) GetWork(branch uint32, coinbaseAddr *account.Address) (*consensus.MiningWork, error) {
-	if shard, ok := s.shards[branch]; ok {
+	if shard, ok := s.getShard(branch); ok {
 		return shard.GetWork(coinbaseAddr)
 	}
 	return nil, ErrMsg("GetWork")
 }
 
 func (s *SlaveBackend) SubmitWork(headerHash common.Hash, nonce uint64, mixHash common.Hash, branch uint32) error {
-	if shard, ok := s.shards[branch]; ok {
+	if shard, ok := s.getShard(branch); ok {
 		return shard.SubmitWork(headerHash, nonce, mixHash)
 	}
 	return ErrMsg("SubmitWork")
@@ -358,7 +357,7 @@ func (s *SlaveBackend) SubmitWork(headerHash common.Hash, nonce uint64, mixHash
 
 func (s *SlaveBackend) AddCrossShardTxListByMinorBlockHash(minorHash common.Hash,
 	txList []*types.CrossShardTransactionDeposit, branch uint32) error {
-	if shard, ok := s.shards[branch]; ok {
+	if shard, ok := s.getShard(branch); ok {
 		shard.MinorBlockChain.AddCrossShardTxListByMinorBlockHash(minorHash, types.CrossShardTransactionDepositList{TXList: txList})
 		return nil
 	}
@@ -366,7 +365,7 @@ func (s *SlaveBackend) AddCrossShardTxListByMinorBlockHash(minorHash common.Hash
 }
 
 func (s *SlaveBackend) GetMinorBlockListByHashList(mHashList []common.Hash, branch uint32) ([]*types.MinorBlock, error) {
-	shrd, ok := s.shards[branch]
+	shrd, ok := s.getShard(branch)
 	if !ok {
 		return nil, ErrMsg("GetMinorBlockListByHashList")
 	}
@@ -389,7 +388,7 @@ func (s *SlaveBackend) GetMinorBlockListByHashList(mHashList []common.Hash, bran
 }
 
 func (s *SlaveBackend) getMinorBlockHeaders(req *p2p.GetMinorBlockHeaderListRequest) ([]*types.MinorBlockHeader, error) {
-	shard, ok := s.shards[req.Branch.Value]
+	shard, ok := s.getShard(req.Branch.Value)
 	if !ok {
 		return nil, ErrMsg("GetMinorBlockHeaderList")
 	}
@@ -415,7 +414,7 @@ func (s *SlaveBackend) getMinorBlockHeaders(req *p2p.GetMinorBlockHeaderListRequ
 }
 
 func (s *SlaveBackend) getMinorBlockHeadersWithSkip(gReq *p2p.GetMinorBlockHeaderListWithSkipRequest) ([]*types.MinorBlockHeader, error) {
-	shrd, ok := s.shards[gReq.Branch.Value]
+	shrd, ok := s.getShard(gReq.Branch.Value)
 	if !ok {
 		return nil, ErrMsg("GetMinorBlockHeaderList")
 	}
@@ -473,26 +472,26 @@ func (s *SlaveBackend) HandleNewTip(req *rpc.HandleNewTipRequest) error {
 	}
 
 	mBHeader := req.MinorBlockHeaderList[0]
-	if shard, ok := s.shards[mBHeader.Branch.Value]; ok {
+	if shard, ok := s.getShard(mBHeader.Branch.Value); ok {
 		return shard.HandleNewTip(req.RootBlockHeader, mBHeader, req.PeerID)
 	}
 	return ErrMsg("HandleNewTip")
 }
 
 func (s *SlaveBackend) NewMinorBlock(peerId string, block *types.MinorBlock) error {
-	if shard, ok := s.shards[block.Branch().Value]; ok {
+	if shard, ok := s.getShard(block.Branch().Value); ok {
 		return shard.NewMinorBlock(peerId, block)
 	}
 	return ErrMsg("NewMinorBlock")
 }
 
 func (s *SlaveBackend) GenTx(genTxs rpc.GenTxRequest) error {
-	for _, shard := range s.shards {
+	for _, shard := range s.copyShards() {
 		if !shard.AccountForTPSReady() {
 			return errors.New("account for tps not ready")
 		}
 	}
-	for _, shrd := range s.shards {
+	for _, shrd := range s.copyShards() {
 		sd := shrd
 		go sd.GenTx(genTxs)
 	}
@@ -500,7 +499,7 @@ func (s *SlaveBackend) GenTx(genTxs rpc.GenTxRequest) error {
 }
 
 func (s *SlaveBackend) SetMining(mining bool) {
-	for _, shrd := range s.shards {
+	for _, shrd := range s.copyShards() {
 		shrd.SetMining(mining)
 	}
 }
@@ -510,7 +509,7 @@ func (s *SlaveBackend) EventMux() *event.TypeMux {
 }
 
 func (s *SlaveBackend) GetShardFilter(fullShardId uint32) (filters.ShardFilter, error) {
-	if shrd, ok := s.shards[fullShardId]; ok {
+	if shrd, ok := s.getShard(fullShardId); ok {
 		return shrd, nil
 	}
 	return nil, fmt.Errorf("bad params of fullShardId: %d\n", fullShardId)
@@ -521,7 +520,7 @@ func (s *SlaveBackend) CheckMinorBlocksInRoot(rootBlock *types.RootBlock) error
 		return errors.New("CheckMinorBlocksInRoot failed: invalid root block")
 	}
 	for _, header := range rootBlock.MinorBlockHeaders() {
-		if shard, ok := s.shards[header.Branch.Value]; ok {
+		if shard, ok := s.getShard(header.Branch.Value); ok {
 			if err := shard.CheckMinorBlock(header); err != nil {
 				return err
 			}
@@ -532,7 +531,7 @@ func (s *SlaveBackend) CheckMinorBlocksInRoot(rootBlock *types.RootBlock) error
 
 func (s *SlaveBackend) GetRootChainStakes(address account.Address, lastMinor common.Hash) (*big.Int,
 	*account.Recipient, error) {
-	for _, shrd := range s.shards {
+	for _, shrd := range s.copyShards() {
 		if shrd.Config.ChainID == 0 && shrd.Config.ShardID == 0 {
 			return shrd.GetRootChainStakes(address, lastMinor)
 		}
diff --git a/cluster/slave/backend.go b/cluster/slave/backend.go
index fbb5a27..4fa4566 100755
--- a/cluster/slave/backend.go
+++ b/cluster/slave/backend.go
@@ -82,7 +82,35 @@ func (s *SlaveBackend) GetConfig() *config.SlaveConfig {
 }
 
 func (s *SlaveBackend) GetShard(fullShardId uint32) *shard.ShardBackend {
-	return s.shards[fullShardId]
+	shard, _ := s.getShard(fullShardId)
+	return shard
+}
+
+func (s *SlaveBackend) getShard(fullShardId uint32) (*shard.ShardBackend, bool) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	shard, ok := s.shards[fullShardId]
+	return shard, ok
+}
+
+// copyShards returns a copy of the shard table that can be ranged over without the lock
+func (s *SlaveBackend) copyShards() map[uint32]*shard.ShardBackend {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	shards := make(map[uint32]*shard.ShardBackend, len(s.shards))
+	for id, shard := range s.shards {
+		shards[id] = shard
+	}
+	return shards
+}
+
+// removeShards empties the shard table and returns the shards it held
+func (s *SlaveBackend) removeShards() map[uint32]*shard.ShardBackend {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	shards := s.shards
+	s.shards = make(map[uint32]*shard.ShardBackend)
+	return shards
 }
 
 func (s *SlaveBackend) Protocols() (protos []p2p.Protocol) { return nil }
@@ -119,9 +147,8 @@ func (s *SlaveBackend) APIs() []rpc.API {
 
 func (s *SlaveBackend) Stop() error {
 	s.eventMux.Stop()
-	for target := range s.shards {
-		s.shards[target].Stop()
-		delete(s.shards, target)
+	for _, shard := range s.removeShards() {
+		shard.Stop()
 	}
 	s.connManager.Stop()
 	return nil
diff --git a/cluster/slave/conn_manager.go b/cluster/slave/conn_manager.go
index f792610..a20b2f1 100755
--- a/cluster/slave/conn_manager.go
+++ b/cluster/slave/conn_manager.go
@@ -119,7 +119,7 @@ func (s *ConnManager) BroadcastXshardTxList(block *types.MinorBlock,
 			}
 			continue
 		}
-		if shard, ok := s.slave.shards[branch.Value]; ok {
+		if shard, ok := s.slave.getShard(branch.Value); ok {
 			shard.MinorBlockChain.AddCrossShardTxListByMinorBlockHash(hash, types.CrossShardTransactionDepositList{TXList: request.TxList})
 		}
 		err := s.AddXshardTxList(branch.GetFullShardID(), request)
@@ -158,7 +158,7 @@ func (s *ConnManager) BatchBroadcastXshardTxList(
 	}
 
 	for branch, request := range brchToAddXsdTxLstReqLst {
-		if shard, ok := s.slave.shards[branch.Value]; ok {
+		if shard, ok := s.slave.getShard(branch.Value); ok {
 			for _, req := range request {
 				shard.MinorBlockChain.AddCrossShardTxListByMinorBlockHash(req.MinorBlockHash, types.CrossShardTransactionDepositList{TXList: req.TxList})
 			}
diff --git a/cluster/slave/slave_grpc.go b/cluster/slave/slave_grpc.go
index fa5be83..6745c53 100755
--- a/cluster/slave/slave_grpc.go
+++ b/cluster/slave/slave_grpc.go
@@ -31,7 +31,7 @@ func NewServerSideOp(slave *SlaveBackend) *SlaveServerSideOp {
 
 func (s *SlaveServerSideOp) HeartBeat(ctx context.Context, req *rpc.Request) (*rpc.Response, error) {
 	s.slave.ctx.SetTimestamp(time.Now())
-	if len(s.slave.shards) == 0 {
+	if len(s.slave.copyShards()) == 0 {
 		return nil, errors.New("shards uninitialized")
 	}
 	return &rpc.Response{}, nil
-- 
2.43.0


From 3ded032ded568e523257fd44c70801b5c0dfd399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:12 +0000
Subject: [PATCH 36/43] fix: do not modify the transaction count history under
 a read lock

---
 cluster/master/backend.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/cluster/master/backend.go b/cluster/master/backend.go
index 77d2bf9..b177bf0 100755
--- a/cluster/master/backend.go
+++ b/cluster/master/backend.go
@@ -674,9 +674,25 @@ func (s *QKCMasterBackend) GetBlockCount() (map[uint32]map[account.Recipient]uin
 }
 
 func (s *QKCMasterBackend) GetStats() (map[string]interface{}, error) {
-	s.lock.RLock()
-	defer s.lock.RUnlock()
-	branchToShardStats := s.branchToShardStats
+	s.lock.Lock()
+	branchToShardStats := make(map[uint32]*rpc.ShardStatus, len(s.branchToShardStats))
+	for branch, status := range s.branchToShardStats {
+		branchToShardStats[branch] = status
+	}
+	txCountHistory := make([]map[string]interface{}, 0)
+	dequeSize := s.txCountHistory.Size()
+	for index := 0; index < dequeSize; index++ {
+		right := s.txCountHistory.PopLeft().(TxForQueue)
+
+		field := map[string]interface{}{
+			"timestamp":     right.Time,
+			"txCount":       right.TxCount,
+			"xShardTxCount": right.XShardTxCount,
+		}
+		txCountHistory = append(txCountHistory, field)
+		s.txCountHistory.PushRight(right)
+	}
+	s.lock.Unlock()
 	shards := make([]map[string]interface{}, 0)
 
 	for _, shardState := range branchToShardStats {
@@ -723,19 +739,6 @@ func (s *QKCMasterBackend) GetStats() (map[string]interface{}, error) {
 		rootLastBlockTime = tip.Time() - prev.Time()
 	}
 	// anything else easy handle?
-	txCountHistory := make([]map[string]interface{}, 0)
-	dequeSize := s.txCountHistory.Size()
-	for index := 0; index < dequeSize; index++ {
-		right := s.txCountHistory.PopLeft().(TxForQueue)
-
-		field := map[string]interface{}{
-			"timestamp":     right.Time,
-			"txCount":       right.TxCount,
-			"xShardTxCount": right.XShardTxCount,
-		}
-		txCountHistory = append(txCountHistory, field)
-		s.txCountHistory.PushRight(right)
-	}
 	peerForDisplay := make([]string, 0)
 	for _, v := range s.protocolManager.peers.Peers() {
 		var temp string
-- 
2.43.0


From 208dd1b0f8a3d4a44ffe4e654d4d57d3859069ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:22 +0000
Subject: [PATCH 37/43] fix: do not reset the chain while rewinding it

---
 core/minorblockchain.go | 8 +++++++-
 core/rootblockchain.go  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/minorblockchain.go b/core/minorblockchain.go
index baeee40..292bae0 100644
--- a/core/minorblockchain.go
+++ b/core/minorblockchain.go
@@ -349,7 +349,13 @@ func (m *MinorBlockChain) setHead(head uint64) error {
 	m.rootBlockCache.Purge()
 	m.lastConfirmCache.Purge()
 
-	return m.loadLastState()
+	// The chain cannot be reset from here with chainmu held
+	headBlock := m.GetMinorBlock(m.CurrentBlock().Hash())
+	if headBlock == nil {
+		return ErrMinorBlockIsNil
+	}
+	m.currentBlock.Store(headBlock)
+	return nil
 }
 
 // GasLimit returns the gas limit of the current HEAD block.
diff --git a/core/rootblockchain.go b/core/rootblockchain.go
index e209ed1..4bf6555 100644
--- a/core/rootblockchain.go
+++ b/core/rootblockchain.go
@@ -219,7 +219,13 @@ func (bc *RootBlockChain) SetHead(head uint64) error {
 
 	rawdb.WriteHeadBlockHash(bc.db, bc.CurrentBlock().Hash())
 
-	return bc.loadLastState()
+	// The chain cannot be reset from here with mu held
+	headBlock := bc.GetBlock(bc.CurrentBlock().Hash())
+	if qkccom.IsNil(headBlock) {
+		return ErrRootBlockIsNil
+	}
+	bc.currentBlock.Store(headBlock)
+	return nil
 }
 
 // CurrentBlock retrieves the current head block of the canonical chain. The
-- 
2.43.0


From 68fc3d53c0a5053e5dfaebe175854fcc3f5bcae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:22 +0000
Subject: [PATCH 38/43] fix: revert the effects of a transaction left out of
 the proposed block

---
 core/minorblockchain_addon.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index 09657c2..ca28662 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -844,7 +844,12 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 
 		}
 		stateT.Prepare(tx.Hash(), block.Hash(), txIndex)
+		snap := stateT.Snapshot()
 		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		if err != nil {
+			// a transaction left out of the block must not change its state
+			stateT.RevertToSnapshot(snap)
+		}
 		switch err {
 		case ErrGasLimitReached:
 			txs.Pop()
-- 
2.43.0


From f8bf84aa56ed5fb1bbf26bf041b2c367712dc96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 39/43] fix: propose only transactions that pass the block's
 own validation

---
 core/minorblockchain_addon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index ca28662..fd78973 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -845,7 +845,11 @@ func (m *MinorBlockChain) addTransactionToBlock(block *types.MinorBlock, evmStat
 		}
 		stateT.Prepare(tx.Hash(), block.Hash(), txIndex)
 		snap := stateT.Snapshot()
-		_, receipt, _, err := ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		var receipt *types.Receipt
+		err := ValidateTransaction(stateT, m.ChainConfig(), tx, nil)
+		if err == nil {
+			_, receipt, _, err = ApplyTransaction(m.ChainConfig(), m, gp, stateT, block.IHeader().(*types.MinorBlockHeader), tx, usedGas, *m.GetVMConfig())
+		}
 		if err != nil {
 			// a transaction left out of the block must not change its state
 			stateT.RevertToSnapshot(snap)
-- 
2.43.0


From 91b0974f0a1adaf6fc39b0ce5a67ff7d6e946e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 40/43] fix: report each transaction's own error from
 TxPool.addTxs

---
 core/tx_pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/tx_pool.go b/core/tx_pool.go
index 3d51844..4c995ef 100644
--- a/core/tx_pool.go
+++ b/core/tx_pool.go
@@ -665,6 +665,7 @@ func (pool *TxPool) addTxs(txs []*types.Transaction, local, sync bool) []error {
 			nilSlot++
 		}
 		errs[nilSlot] = err
+		nilSlot++
 	}
 	// Reorg the pool internals if needed and return
 	done := pool.requestPromoteExecutables(dirtyAddrs)
-- 
2.43.0


From 22bebb2a60f6269bbcfa50c85164ce38dae6507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:28 +0000
Subject: [PATCH 41/43] fix: drop pooled transactions unpayable in any token,
 not in every one

---
 core/tx_list.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/tx_list.go b/core/tx_list.go
index 442965f..215045c 100644
--- a/core/tx_list.go
+++ b/core/tx_list.go
@@ -286,6 +286,20 @@ func (l *txList) Forward(threshold uint64) types.Transactions {
 	return l.txs.Forward(threshold)
 }
 
+// withinCosts reports whether the highest cost seen in every token is within its limit.
+func (l *txList) withinCosts(costLimit map[uint64]*big.Int) bool {
+	for token, cost := range l.costcap {
+		limit := costLimit[token]
+		if limit == nil {
+			limit = new(big.Int)
+		}
+		if cost.Cmp(limit) > 0 {
+			return false
+		}
+	}
+	return true
+}
+
 // Filter removes all transactions from the list with a cost or gas limit higher
 // than the provided thresholds. Every removed transaction is returned for any
 // post-removal maintenance. Strict-mode invalidated transactions are also
@@ -297,10 +311,8 @@ func (l *txList) Forward(threshold uint64) types.Transactions {
 // the newly invalidated transactions.
 func (l *txList) Filter(costLimit map[uint64]*big.Int, gasLimit uint64) (types.Transactions, types.Transactions) {
 	// If all transactions are below the threshold, short circuit
-	for token, bal := range costLimit {
-		if l.cmpCostCapValue(token, bal) <= 0 && l.gascap <= gasLimit {
-			return nil, nil
-		}
+	if l.gascap <= gasLimit && l.withinCosts(costLimit) {
+		return nil, nil
 	}
 
 	l.costcap = costLimit // Lower the caps to the thresholds
-- 
2.43.0


From 18df88759c92fbd0b8602f6e500b692b112a9f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 42/43] fix: broadcast only transactions the pool accepted

---
 cluster/shard/api_backend.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cluster/shard/api_backend.go b/cluster/shard/api_backend.go
index 88bf148..835b791 100755
--- a/cluster/shard/api_backend.go
+++ b/cluster/shard/api_backend.go
@@ -225,13 +225,15 @@ func (s *ShardBackend) AddTransaction(tx *types.Transaction) error {
 }
 
 func (s *ShardBackend) AddTransactionAndBroadcast(tx *types.Transaction) error {
-	err := s.MinorBlockChain.AddTx(tx)
+	if err := s.MinorBlockChain.AddTx(tx); err != nil {
+		return err
+	}
 	go func() {
 		if err := s.conn.BroadcastTransactions("", s.branch.Value, []*types.Transaction{tx}); err != nil {
 			log.Error(s.logInfo, "broadcastTransaction err", err)
 		}
 	}()
-	return err
+	return nil
 }
 
 func (s *ShardBackend) GetEthChainID() uint32 {
-- 
2.43.0


From 7e7966ee1b75c813d1f169ee823a072862294a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 43/43] fix: page through the transaction history from the
 newest entry down

---
 core/minorblockchain_addon.go | 12 +++++++++---
 qkcdb/rocksdb.go              |  8 ++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/minorblockchain_addon.go b/core/minorblockchain_addon.go
index fd78973..5f464a0 100644
--- a/core/minorblockchain_addon.go
+++ b/core/minorblockchain_addon.go
@@ -1577,9 +1577,15 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 		index      uint32
 		txHashes   = make(map[common.Hash]struct{})
 	)
-	it.Seek(end)
+	// newest first, so that the page after this one (keys up to next) continues where it stopped
+	it.Seek(start)
+	if !it.Valid() {
+		it.Last()
+	} else if bytes.Compare(it.Key(), start) > 0 {
+		it.Prev()
+	}
 	for it.Valid() {
-		if bytes.Compare(it.Key(), start) > 0 {
+		if bytes.Compare(it.Key(), end) < 0 {
 			break
 		}
 		if getTxType == GetTxFromAddress {
@@ -1669,7 +1675,7 @@ func (m *MinorBlockChain) getTransactionDetails(start, end []byte, limit uint32,
 		if limit == 0 {
 			break
 		}
-		it.Next()
+		it.Prev()
 	}
 	return txList, next, nil
 }
diff --git a/qkcdb/rocksdb.go b/qkcdb/rocksdb.go
index 37d48f1..3aea24f 100644
--- a/qkcdb/rocksdb.go
+++ b/qkcdb/rocksdb.go
@@ -172,6 +172,14 @@ func (q *QKCIterator) Next() {
 	q.it.Next()
 }
 
+func (q *QKCIterator) Prev() {
+	q.it.Prev()
+}
+
+func (q *QKCIterator) Last() {
+	q.it.SeekToLast()
+}
+
 func (q *QKCIterator) Valid() bool {
 	return q.it.Valid()
 }
-- 
2.43.0

